---------------------------- MODULE PreprocessMC ----------------------------
(* Columns over small sets of values: what the column operators guarantee.   *)
EXTENDS Preprocess, FiniteSets
CONSTANTS QS, WS, PS, FACTORS, OFFSETS, LEVELSETS, BOUNDARIES
VARIABLES kind, C, ps, pb, L, S
vars == <<kind, C, ps, pb, L, S>>
HPa(x) == (x * 65536) \div 25      \* hPa to the unit of pressure
Lv == <<HPa(500), HPa(850), HPa(925)>>
Column(q, u) == [k \in 1..Len(Lv) |-> [p |-> Lv[k], q |-> q[k], u |-> u[k], v |-> 0]]
Init ==
  \/ /\ kind = "pl"
     /\ \E q \in [1..4 -> QS], u \in [1..4 -> WS], s \in PS, f \in FACTORS, o \in OFFSETS :
          /\ ps = HPa(s) /\ pb = Mul(f, ps) + HPa(o)
          /\ L = Column(SubSeq(q, 1, 3), SubSeq(u, 1, 3))
          /\ S = [p |-> ps, q |-> q[4], u |-> u[4], v |-> 0]
          /\ C = PressureLayers(L, S, pb, FALSE)
  \/ /\ kind = "ml"
     /\ \E n \in LEVELSETS, s \in PS, b \in BOUNDARIES : \E q \in [1..Len(n) -> QS] :
          /\ ps = HPa(s) /\ pb = b
          /\ L = [k \in 1..Len(n) |-> [p |-> n[k], q |-> q[k], u |-> ONE \div 2, v |-> -ONE]]
          /\ S = <<>> /\ C = ModelLayers(n, L, ps, b)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* the two layers together are the column
Additive == LET T == TwoLayers(C) IN T.up.s + T.low.s = Total(C) /\ T.up.x + T.low.x = Sums(C).x
Positive == \A k \in 1..Len(C) : C[k].w >= 0
\* layers are ordered: none of the upper layer below one of the lower layer
Ordered == \A i, j \in 1..Len(C) : C[i].lower /\ C[j].w # 0 /\ j > i => C[j].lower
\* an evenly moist column holds humidity times the pressure at the surface
Even == (\A k \in 1..Len(L) : L[k].q = ONE) /\ kind = "ml" => Near(Total(C), Mul(KG, ps), 100)
\* with equal wind everywhere the flux is that wind times the moisture
Uniform == kind = "ml" => LET T == TwoLayers(C) IN Near(T.up.x, T.up.s \div 2, 10) /\ T.low.y = -T.low.s
\* putting in the boundary level does not change the column
NoChange == kind = "pl" =>
  LET D == PressureLayers(L, [p |-> ps, q |-> L[3].q, u |-> 0, v |-> 0], ps, FALSE)
      E == PressureLayers(L, [p |-> ps, q |-> L[3].q, u |-> 0, v |-> 0], pb, FALSE)
  IN  Near(Total(D), Total(E), 60)
\* what is given below the surface does not matter
Below == kind = "pl" =>
  LET M == [k \in 1..Len(L) |-> IF L[k].p > ps THEN [L[k] EXCEPT !.q = 2 * ONE, !.u = ONE] ELSE L[k]] IN
  TwoLayers(PressureLayers(M, S, pb, FALSE)) = TwoLayers(C)
Scaling == kind = "ml" /\ Total(C) > ONE => Near(Total(Scaled(C, 20 * ONE)), 20 * ONE, 200)
QUARTERS3 == {0, 65536, 262144}
WINDS2 == {-131072, 131072}
FACTORS2 == {196608, 170000}
SETS4 == {<<1, 137>>, <<60, 110, 137>>, <<20, 111, 112>>, <<136, 137>>}
=============================================================================
