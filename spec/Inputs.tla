-------------------------------- MODULE Inputs --------------------------------
(* Contents of input files of other programs, as function of their characters. *)
EXTENDS Text, FiniteSets

(* -- Fortran namelists ------------------------------------------------------- *)

(* Words, strings, "=", "&" and "/"; case and spacing do not matter except in
   strings, comments extend from "!" to the end of the line.                   *)
Flush(s) == IF s.cur = <<>> THEN s
            ELSE [s EXCEPT !.out = Append(@, [t |-> "word", w |-> s.cur]), !.cur = <<>>]
Mark(s, t) == LET f == Flush(s) IN [f EXCEPT !.out = Append(@, [t |-> t, w |-> <<>>])]

Lex(s, c) ==
  IF s.mode = "comment" THEN IF c = "\n" THEN [s EXCEPT !.mode = "code"] ELSE s
  ELSE IF s.mode # "code"
  THEN IF c = s.mode
       THEN [s EXCEPT !.mode = "code", !.cur = <<>>,
                      !.out = Append(@, [t |-> "string", w |-> s.cur])]
       ELSE [s EXCEPT !.cur = Append(@, c)]
  ELSE IF c = "!" THEN [Flush(s) EXCEPT !.mode = "comment"]
  ELSE IF c \in {"'", "\""} THEN [Flush(s) EXCEPT !.mode = c]
  ELSE IF c \in Blanks \cup {",", ";"} THEN Flush(s)
  ELSE IF c \in {"=", "/", "&"} THEN Mark(s, c)
  ELSE IF c = "(" /\ s.cur = <<>> /\ s.out # <<>> /\ s.out[Len(s.out)].t = "word"
  THEN [s EXCEPT !.out = SubSeq(@, 1, Len(@) - 1), !.cur = Append(s.out[Len(s.out)].w, c)]
  ELSE [s EXCEPT !.cur = Append(@, c)]

Tokens(text) == Flush(FoldLeft(Lex, [mode |-> "code", cur |-> <<>>, out |-> <<>>], text)).out

None == [t |-> "none", v |-> ""]

Value(tok) ==
  IF tok.t = "string" THEN [t |-> "string", v |-> Join(tok.w)]
  ELSE IF IsNumber(tok.w)
  THEN [t |-> IF IsInteger(tok.w) THEN "integer" ELSE "real", v |-> Number(tok.w)]
  ELSE [t |-> "logical",
        v |-> IF Low(Without(tok.w, {"."})[1]) = "t" THEN "true" ELSE "false"]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Store(list, n, v) ==
  IF n <= Len(list) THEN [list EXCEPT ![n] = v]
  ELSE list \o [i \in 1 .. n - Len(list) - 1 |-> None] \o <<v>>

(* pending: word of which it is not yet known if it is name or value *)
Assign(s) ==
  IF s.pending = <<>> THEN s
  ELSE LET old == IF s.key \in DOMAIN s.data THEN s.data[s.key] ELSE <<>>
       IN [s EXCEPT !.pending = <<>>, !.n = @ + 1,
                    !.data = Put(@, s.key, Store(old, s.n, Value(s.pending[1])))]

Read(s, tok) ==
  IF s.state = "outside" THEN IF tok.t = "&" THEN [s EXCEPT !.state = "name"] ELSE s
  ELSE IF s.state = "name"
  THEN [s EXCEPT !.state = "inside", !.name = Join(Lower(tok.w)), !.key = <<"", "">>]
  ELSE IF tok.t = "/" THEN [Assign(s) EXCEPT !.state = "outside"]
  ELSE IF tok.t = "="
  THEN LET w == s.pending[1].w
           base == Until(w, {"("})
           index == IF Has(w, "(") THEN Natural(Until(After(w, {"("}), {")"})) ELSE 1
       IN [s EXCEPT !.key = <<s.name, Join(Lower(base))>>, !.n = index, !.pending = <<>>]
  ELSE [Assign(s) EXCEPT !.pending = <<tok>>]

Namelists(text) ==
  FoldLeft(Read, [state |-> "outside", name |-> "", key |-> <<"", "">>, n |-> 1,
                  pending |-> <<>>, data |-> [k \in {} |-> <<>>]], Tokens(text)).data

(* Options of all namelists. *)
Options(text) == LET d == Namelists(text) IN {<<k[2], d[k]>> : k \in DOMAIN d}
Option(opts, key) == (CHOOSE o \in opts : o[1] = key)[2]
IntOf(opts, key) == LET v == Option(opts, key)[1].v
                  IN CHOOSE n \in 0 .. 40 : \* from significant digits
                       v = Number([i \in 1 .. Len(ToString(n)) |->
                                    IF n < 10 THEN ToString(n)
                                    ELSE ToString(IF i = 1 THEN n \div 10 ELSE n % 10)])
Keys(opts) == {o[1] : o \in opts}

(* -- plane waves: namelists and cards ----------------------------------------------- *)
Plain(ws) == Join(Without(Lower(FlattenSeq(ws)), {"{", "}", "(", ")"}))

Cards == {"atomic_species", "atomic_positions", "k_points", "cell_parameters"}

PwiLine(s, l, ntyp, nat) ==
  LET ws == WordsOf(l, {})
  IN IF ws = <<>> THEN s
     ELSE IF s.left > 0
     THEN LET t == [s EXCEPT !.left = @ - 1]
          IN CASE s.card = "atomic_species" ->
                    [t EXCEPT !.species = Append(@, <<Join(ws[1]), Number(ws[2]), Join(ws[3])>>)]
               [] s.card = "atomic_positions" ->
                    [t EXCEPT !.atoms = Append(@, IF s.coords = "crystal_sg"
                                                  THEN <<Join(ws[1]), Join(ws[2])>>
                                                  ELSE <<Join(ws[1])>> \o Numbers(SubSeq(ws, 2, 4)))]
               [] s.card = "k_points" -> [t EXCEPT !.k = Append(@, Numbers(ws))]
               [] s.card = "number" -> [t EXCEPT !.card = "k_points", !.left = Natural(ws[1])]
               [] s.card = "cell_parameters" -> [t EXCEPT !.cell = Append(@, Numbers(ws))]
     ELSE LET card == Join(Lower(ws[1]))
              unit == Plain(Tail(ws))
          IN CASE card = "atomic_species" -> [s EXCEPT !.card = card, !.left = ntyp]
               [] card = "atomic_positions" ->
                    [s EXCEPT !.card = card, !.left = nat,
                              !.coords = IF unit = "" THEN "alat" ELSE unit]
               [] card = "k_points" ->
                    [s EXCEPT !.ktyp = IF unit = "" THEN "tpiba" ELSE unit,
                              !.left = IF unit = "gamma" THEN 0 ELSE 1,
                              !.card = IF unit = "automatic" THEN card ELSE "number"]
               [] card = "cell_parameters" ->
                    [s EXCEPT !.card = card, !.left = 3,
                              !.units = IF unit = "" THEN "bohr" ELSE unit]
               [] OTHER -> s

Pwi(text) ==
  LET opts == TLCEval(Options(text))
      ntyp == IntOf(opts, "ntyp")
      nat == IntOf(opts, "nat")
      f == FoldLeft(LAMBDA s, l : PwiLine(s, l, ntyp, nat),
                    [left |-> 0, card |-> "", species |-> <<>>, coords |-> "", atoms |-> <<>>,
                     ktyp |-> "", k |-> <<>>, units |-> "", cell |-> <<>>], Lines(text))
  IN [opts |-> opts, species |-> f.species, coords |-> f.coords, atoms |-> f.atoms,
      ktyp |-> f.ktyp, k |-> f.k, units |-> f.units, cell |-> f.cell]

(* -- interpolation of phonons: namelist and list of points ------------------------------- *)
(* Line in which the last namelist ends. *)
Matdyn(text) ==
  LET L == Lines(text)
      ends == {i \in 1 .. Len(L) :
                LET toks == Tokens(L[i]) IN \E j \in 1 .. Len(toks) : toks[j].t = "/"}
      e == CHOOSE i \in ends : \A j \in ends : j <= i
      rest == SelectSeq([i \in 1 .. Len(L) - e |-> WordsOf(L[e + i], {})], LAMBDA ws : ws # <<>>)
      n == Natural(rest[1][1])
  IN [opts |-> Options(text), q |-> [i \in 1 .. n |-> Numbers(rest[i + 1])]]

(* -- Wannier functions ----------------------------------------------------------------------- *)
Integers == {"num_bands", "num_wann", "dis_num_iter", "num_iter", "search_shells"}
Reals == {"dis_win_min", "dis_win_max", "dis_froz_min", "dis_froz_max"}
Logicals == {"write_hr", "bands_plot", "wannier_plot"}

Logical(w) == [t |-> "logical", v |-> IF \E i \in 1 .. Len(w) : Low(w[i]) = "t"
                                      THEN "true" ELSE "false"]

WinLine(s, l) ==
  LET ws == WordsOf(l, {"=", ":"})
      key == Join(Lower(ws[1]))
  IN IF ws = <<>> THEN s
     ELSE IF s.block # ""
     THEN IF key = "end" THEN [s EXCEPT !.block = ""]
          ELSE IF s.block = "projections"
          THEN [s EXCEPT !.proj = @ \cup {<<Join(Trim(Until(l, {":"}))), Join(Trim(After(l, {":"})))>>}]
          ELSE IF s.block = "kpoint_path"
          THEN [s EXCEPT !.path = Append(@, [i \in 1 .. Len(ws) |-> Join(ws[i])])]
          ELSE IF s.block = "unit_cell_cart" THEN [s EXCEPT !.cell = Append(@, Numbers(ws))]
          ELSE IF s.block = "kpoints"
          THEN [s EXCEPT !.k = Append(@, LET n == Numbers(ws)
                                         IN IF Len(n) = 3 THEN Append(n, "0e0") ELSE n)]
          ELSE [s EXCEPT !.atoms = Append(@, <<Join(ws[1])>> \o Numbers(Tail(ws)))]
     ELSE IF key = "begin"
     THEN LET b == Join(ws[2])
          IN [s EXCEPT !.block = b,
                       !.coords = IF b = "atoms_frac" THEN "frac"
                                  ELSE IF b = "atoms_cart" THEN "cart" ELSE @]
     ELSE IF key = "mp_grid" THEN [s EXCEPT !.mp = Numbers(Tail(ws))]
     ELSE IF key \in Integers
     THEN [s EXCEPT !.opts = @ \cup {<<key, <<[t |-> "integer", v |-> Number(ws[2])]>>>>}]
     ELSE IF key \in Reals
     THEN [s EXCEPT !.opts = @ \cup {<<key, <<[t |-> "real", v |-> Number(ws[2])]>>>>}]
     ELSE IF key \in Logicals THEN [s EXCEPT !.opts = @ \cup {<<key, <<Logical(ws[2])>>>>}]
     ELSE s

Win(text) ==
  LET f == FoldLeft(WinLine, [block |-> "", opts |-> {}, mp |-> <<>>, proj |-> {}, path |-> <<>>,
                              cell |-> <<>>, coords |-> "", atoms |-> <<>>, k |-> <<>>],
                    Lines(text))
  IN [opts |-> f.opts, mp |-> f.mp, proj |-> f.proj, path |-> f.path, cell |-> f.cell,
      coords |-> f.coords, atoms |-> f.atoms, k |-> f.k]

Content(kind, text) == CASE
     kind = "pwi" -> Pwi(text)
  [] kind = "win" -> Win(text)
  [] kind = "matdyn" -> Matdyn(text)
  [] kind \in {"ph", "q2r", "epw"} -> [opts |-> Options(text)]
  [] kind = "namelists" -> [opts |-> {<<k, Namelists(text)[k]>> : k \in DOMAIN Namelists(text)}]
=============================================================================
