---------------------------- MODULE MeshModelTrace ----------------------------
(* Conformance of el.k2r, elel.q2r, ph.q2r, elph.q2r.                          *)
EXTENDS MeshModel, Judge

Elems(r) == {<<r.rows[x[1]], x[2], x[3], x[4], x[5]>> : x \in ToSet(r.raw)}
MeshOf(r) == {<<<<x[1], x[2], x[3]>>, x[4], x[5], x[6], x[7]>> : x \in ToSet(r.mesh)}


Verdict(r) ==
  IF r.exc # "" THEN "raised " \o r.exc
  ELSE LET E == TLCEval(Elems(r))
           m0 == MeshOf(r)
           m == TLCEval(IF r.kind = "ph" THEN MassConvert(m0, r.input, r.model, r.rt) ELSE m0)
           Site(x) == IF r.kind = "ph" THEN x \div 3 + 1 ELSE x + 1
       IN
  IF Cardinality(ToSet(r.rows)) # Len(r.rows) THEN "repeated lattice vectors"
  ELSE IF r.kind = "el" /\ r.unit # EnergyFactor(r.input, r.model) THEN "wrong energy unit"
  ELSE IF ~Reproduces(E, m, r.nr) THEN "does not reproduce the mesh data"
  ELSE IF ~Localized(E, r.nr, r.at, r.tau, Site, 3) THEN "not on the nearest images"
  ELSE IF r.size # r.wantsize \/ r.nk # r.nr THEN "wrong size"
  ELSE "ok"

CElems(r) == {<<r.rg[x[1]], x[2], r.rk[x[3]], x[4], x[5], x[6], x[7]>> : x \in ToSet(r.raw)}
CMeshOf(r) == {<<<<x[1], x[2], x[3]>>, <<x[4], x[5], x[6]>>, x[7], x[8], x[9], x[10], x[11]>> :
                 x \in ToSet(r.mesh)}
CVerdict(r) ==
  IF r.exc # "" THEN "raised " \o r.exc
  ELSE LET E == TLCEval(CElems(r))
           m == TLCEval(CMassConvert(CMeshOf(r), r.input, r.model, r.rt))
       IN
  IF Cardinality(ToSet(r.rg)) # Len(r.rg) \/ Cardinality(ToSet(r.rk)) # Len(r.rk)
    THEN "repeated lattice vectors"
  ELSE IF ~CReproduces(E, m, r.nq, r.nk) THEN "does not reproduce the mesh data"
  ELSE IF ~CLocalized(E, r.nq, r.nk, r.at, r.ra, r.ro, 3) THEN "not on the nearest images"
  ELSE "ok"

(* Two models claimed equal, given as fixed-point numbers: rows must agree and
   elements must agree up to one unit in the last place. *)
EqualVerdict(r) ==
  IF r.exc # "" THEN "raised " \o r.exc
  ELSE IF r.rows1 # r.rows2 \/ Len(r.data1) # Len(r.data2) THEN "different lattice vectors"
  ELSE IF \E i \in 1 .. Len(r.data1) : Abs(r.data1[i] - r.data2[i]) > r.tol
       THEN "different elements"
  ELSE "ok"
=============================================================================
