----------------------------- MODULE DesignerMC -----------------------------
(* Squares on a coarse globe: turning the globe turns the square with it, in *)
(* whatever convention longitudes are given; larger radii mark more; nothing *)
(* further away than the radius is marked, and everything nearer is.         *)
EXTENDS Designer, FiniteSets
CONSTANT Step
VARIABLES p, radius, turn
vars == <<p, radius, turn>>
Lons == {k * Step : k \in 0..(360000 \div Step - 1)}
Lats == {-60000, 0, 30000, 60000}
Init == p \in [1..2 -> {0}] /\ radius = 0 /\ turn = 0
Next == \/ \E y \in Lats, x \in Lons : p = <<0, 0>> /\ p' = <<y, x - 180000>> /\ UNCHANGED <<radius, turn>>
        \/ radius < 200000 /\ radius' = radius + Step \div 2 /\ UNCHANGED <<p, turn>>
        \/ turn < 720000 /\ turn' = turn + Step /\ UNCHANGED <<p, radius>>
Spec == Init /\ [][Next]_vars
Cells(q, r) == {c \in Lats \X Lons : InSquare(c[1], c[2], q, r)}
Turned(S, t) == {<<c[1], (c[2] + t) % 360000>> : c \in S}
Equivariant == Cells(<<p[1], p[2] + turn>>, radius) = Turned(Cells(p, radius), turn % 360000)
Monotone == Cells(p, radius) \subseteq Cells(p, radius + Step)
Exact == Cardinality({c \in Cells(p, radius) : c[1] = p[1]}) =
           (IF p[1] \notin Lats THEN 0
            ELSE LET k == 2 * (radius \div Step) + 1 IN IF k > 360000 \div Step THEN 360000 \div Step ELSE k)
=============================================================================
