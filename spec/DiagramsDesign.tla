----------------------------- MODULE DiagramsDesign -----------------------------
(* The divided differences of Diagrams are what the documentation defines, are
   symmetric, and approach derivatives where energies coincide; the bubble is
   antiunitary under exchange of its ends; the mesh is a group.               *)
EXTENDS Diagrams
CONSTANTS CMAX, XMAX
VARIABLES c, x, y, z, nk

Init == /\ c \in [1 .. 4 -> -CMAX .. CMAX]
        /\ x \in -XMAX .. XMAX /\ y \in -XMAX .. XMAX /\ z \in -XMAX .. XMAX
        /\ IF x # 0 \/ y # 0 \/ z # 0 \/ \E i \in 1 .. 4 : c[i] # 0 THEN nk = <<1, 1, 1>> ELSE
           nk \in {<<1, 1, 1>>, <<2, 1, 1>>, <<3, 2, 1>>, <<1, 2, 2>>}
Next == UNCHANGED <<c, x, y, z, nk>>
Spec == Init /\ [][Next]_<<c, x, y, z, nk>>

Quotient == (x - y) * Dd1(c, x, y, 1) = F(c, x) - F(c, y)
Symmetric == /\ Dd1(c, x, y, 1) = Dd1(c, y, x, 1)
             /\ Dd2(c, x, y, z, 1) = Dd2(c, y, x, z, 1)
             /\ Dd2(c, x, y, z, 1) = Dd2(c, z, y, x, 1)
Slope == Deriv(c, x) = c[2] + (2 * c[3] * x) + (3 * c[4] * x * x)
(* the documented numerator and denominator of the triangle *)
ThirdOrder == Dd2(c, x, y, z, 1) * ((y - z) * (z - x) * (x - y)) =
  (x * (F(c, y) - F(c, z))) + (y * (F(c, z) - F(c, x))) + (z * (F(c, x) - F(c, y)))
Curvature == 2 * Dd2(c, x, x, x, 1) = (2 * c[3]) + (6 * c[4] * x)
Mesh == \A k \in Ks(nk) : /\ Index(Point(k, nk), nk) = k
          /\ \A m \in Ks(nk) : \A n \in Ks(nk) :
               Plus(Plus(k, Point(m, nk), nk), Point(n, nk), nk) = Plus(Plus(k, Point(n, nk), nk), Point(m, nk), nk)
          /\ \A j \in Ks(nk) : Cardinality({Plus(i, Point(j, nk), nk) : i \in Ks(nk)}) = Size(nk)
=============================================================================
