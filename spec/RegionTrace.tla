----------------------------- MODULE RegionTrace ------------------------------
(* Regions read from shapefiles: the stored weights and the tagged moisture. *)
EXTENDS Region, Json, IOUtils, FiniteSets, Integers

Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, weights, bad, phase, verdict
vars == <<c, weights, bad, phase, verdict>>
C == Cases[c]
TOL == 700
Note(clause, S, M, O) ==
  IF S = {} THEN <<>>
  ELSE LET x == CHOOSE x \in S : \A y \in S : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
       IN <<[run |-> C.id, clause |-> clause, row |-> x[1], col |-> x[2], model |-> M[x[1]][x[2]], observed |-> O[x[1]][x[2]], cells |-> Cardinality(S)]>>

Init == c = 1 /\ weights = <<>> /\ bad = <<>> /\ phase = "start" /\ verdict = <<>>
\* weights on the grid of the forcing
Weigh ==
  /\ phase = "start" /\ c <= Len(Cases)
  /\ weights' = TLCEval([i \in 1..C.m |-> TLCEval([j \in 1..C.n |-> Share(C.rings, 4 * C.lon[j], 4 * C.lat[i], 4 * C.dlon, 4 * C.dlat)])])
  /\ phase' = "judge"
  /\ UNCHANGED <<c, bad, verdict>>

\* a field given with its own coordinates: the cell at (lat, lon)
Row(F, y) == CHOOSE i \in 1..Len(F.lat) : F.lat[i] = y
Col(F, x) == CHOOSE j \in 1..Len(F.lon) : F.lon[j] = x
SameGrid(F, lat, lon) == /\ Len(F.lat) = Len(lat) /\ Len(F.lon) = Len(lon)
                         /\ \A i \in 1..Len(lat) : \E q \in 1..Len(F.lat) : F.lat[q] = lat[i]
                         /\ \A j \in 1..Len(lon) : \E q \in 1..Len(F.lon) : F.lon[q] = lon[j]
Cells == (1..C.m) \X (1..C.n)
JudgeWeights ==
  IF C.stored = <<>> THEN <<[run |-> C.id, clause |-> "weights-missing", row |-> 0, col |-> 0, model |-> 0, observed |-> 0, cells |-> 0]>>
  ELSE LET F == C.stored[1] IN
    IF ~SameGrid(F, C.lat, C.lon) THEN <<[run |-> C.id, clause |-> "weights-grid", row |-> 0, col |-> 0, model |-> C.m, observed |-> Len(F.lat), cells |-> 0]>>
    ELSE LET O == [i \in 1..C.m |-> [j \in 1..C.n |-> F.w[Row(F, C.lat[i])][Col(F, C.lon[j])]]]
             D == {x \in Cells : ~Near(weights[x[1]][x[2]], O[x[1]][x[2]], TOL)}
             \* exactly nothing outside, exactly everything inside
             Z == {x \in Cells : \/ weights[x[1]][x[2]] = 0 /\ C.clear[x[1]][x[2]] = 1 /\ O[x[1]][x[2]] # 0}
         IN Note("weights", D, weights, O) \o Note("outside", Z, weights, O)
\* the flux is the same all the time: tagged = weight * amount
JudgeTagged ==
  LET F == C.tagged
      O == [i \in 1..C.m |-> [j \in 1..C.n |->
              IF C.lat[i] \in {F.lat[q] : q \in 1..Len(F.lat)} /\ C.lon[j] \in {F.lon[q] : q \in 1..Len(F.lon)}
              THEN F.w[Row(F, C.lat[i])][Col(F, C.lon[j])] ELSE -1]]
      M == [i \in 1..C.m |-> [j \in 1..C.n |-> Mul(weights[i][j], C.amount[i][j])]]
      D == {x \in Cells : O[x[1]][x[2]] # -1 /\ ~Near(M[x[1]][x[2]], O[x[1]][x[2]], 100 + Mul(TOL, C.amount[x[1]][x[2]]))}
  IN Note("tagged", D, M, O)
JudgeAll == /\ phase = "judge" /\ bad' = JudgeWeights \o JudgeTagged /\ phase' = "end" /\ UNCHANGED <<c, weights, verdict>>
Partial == Cardinality({x \in Cells : Between(weights[x[1]][x[2]], 1000, ONE - 1000)})
Full == Cardinality({x \in Cells : weights[x[1]][x[2]] > ONE - 1000})
Finish ==
  /\ phase = "end"
  /\ verdict' = Append(verdict, [run |-> C.id, ok |-> bad = <<>>, bad |-> bad, stats |-> [partial |-> Partial, full |-> Full, cells |-> C.m * C.n]])
  /\ bad' = <<>> /\ c' = c + 1 /\ phase' = (IF c' > Len(Cases) THEN "done" ELSE "start") /\ UNCHANGED weights
Write == phase = "done" /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written" /\ UNCHANGED <<c, weights, bad, verdict>>
Next == Weigh \/ JudgeAll \/ Finish \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
