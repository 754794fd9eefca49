------------------------------ MODULE RegionMC -------------------------------
(* All quadrilaterals on a small lattice: the shares lie between zero and    *)
(* one, boxes tile the plane (shares add up to the area of the polygon), and *)
(* the share is one exactly where the polygon covers the box.                *)
EXTENDS Region, FiniteSets

CONSTANTS M,      \* lattice points 0..M in units of half a box
          Unit    \* half a box, in quarters of a thousandth of a degree
VARIABLES pts, done
Lattice == (0..M) \X (0..M)
\* counter clockwise convex quadrilaterals (possibly degenerate to triangles)
Turn(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Convex(q) == /\ \A k \in 1..4 : Turn(q[k], q[(k % 4) + 1], q[((k+1) % 4) + 1]) >= 0
             /\ Turn(q[1], q[2], q[3]) > 0 /\ Turn(q[1], q[3], q[4]) >= 0
\* every quadrilateral once: its first corner is the lowest, leftmost one
First(q) == \A k \in 2..4 : q[1][2] < q[k][2] \/ (q[1][2] = q[k][2] /\ q[1][1] <= q[k][1])
Init == done = FALSE /\ pts \in {<<a, b, b, b>> : a, b \in Lattice}
Next == /\ ~done /\ done' = TRUE
        /\ pts' \in {q \in {<<pts[1], pts[2], x, y>> : x, y \in Lattice} : Convex(q) /\ First(q)}
Spec == Init /\ [][Next]_<<pts, done>>
P == [k \in 1..4 |-> <<pts[k][1] * Unit, pts[k][2] * Unit>>]
Rings == <<[sign |-> 1, pts |-> P]>>
Boxes == {x \in (0..M) \X (0..M) : x[1] % 2 = 1 /\ x[2] % 2 = 1}
W(x) == Share(Rings, x[1] * Unit, x[2] * Unit, 2 * Unit, 2 * Unit)
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN W(x) + Sum(S \ {x})
\* exact twice area in lattice units; a box has 8 of them (2 * 2 * 2)
A2 == Turn(pts[1], pts[2], pts[3]) + Turn(pts[1], pts[3], pts[4])
Tiles == done => Near(8 * Sum(Boxes), A2 * ONE, 8 * 300 * Cardinality(Boxes))
Shares == done => \A x \in Boxes : Between(W(x), 0, ONE + 300)
Corner(x, k) == <<x[1] + (IF k \in {1, 4} THEN -1 ELSE 1), x[2] + (IF k \in {1, 2} THEN -1 ELSE 1)>>
Covers(x) == \A k \in 1..4 : \A e \in 1..4 : Turn(pts[e], pts[(e % 4) + 1], Corner(x, k)) >= 0
OneIfCovered == done => \A x \in Boxes : Covers(x) => Near(W(x), ONE, 300)
=============================================================================
