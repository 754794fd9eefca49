------------------------------ MODULE ConeTrace ------------------------------
(* How far a difference can reach.  Two runs of the program whose forcing    *)
(* differs in some cells of some records, or whose regions differ in some    *)
(* cells, agree in every cell the difference cannot have reached: nothing    *)
(* before a record is used knows of it (the run's sense of time decides what *)
(* is before), and within a step a difference moves to the four neighbours   *)
(* at most.                                                                  *)
EXTENDS Fx, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, t, reach, o, phase, far, bad, verdict
vars == <<c, t, reach, o, phase, far, bad, verdict>>
C == Cases[c]
Fwd == C.dir = "forward"
Cells == (1..C.m) \X (1..C.n)
East(j) == IF j = C.n THEN (IF C.per THEN 1 ELSE C.n) ELSE j + 1
West(j) == IF j = 1 THEN (IF C.per THEN C.n ELSE 1) ELSE j - 1
Around(S) == S \cup {<<Min(w[1] + 1, C.m), w[2]>> : w \in S} \cup {<<Max(w[1] - 1, 1), w[2]>> : w \in S}
               \cup {<<w[1], East(w[2])>> : w \in S} \cup {<<w[1], West(w[2])>> : w \in S}
Changed == {<<C.cells[k][1], C.cells[k][2]>> : k \in 1..Len(C.cells)}

\* records a step from time s on uses: at its ends and in its middle
RecsAt(s) == {(s \div C.tin) * C.tin, ((s + C.tin - 1) \div C.tin) * C.tin}
Early(s) == IF Fwd THEN s ELSE s - C.dt
Uses(s) == RecsAt(Early(s)) \cup RecsAt(Early(s) + C.dt) \cup RecsAt(Early(s) + C.dt \div 2)
Touched(s) == \E k \in 1..Len(C.recs) : C.recs[k] \in Uses(s)
Tags(s) == C.mask /\ C.tag0 <= s /\ s <= C.tag1
CanStep == IF Fwd THEN t + C.dt <= C.t1 ELSE t - C.dt >= C.t0
Last(s) == IF Fwd THEN s + C.dt > C.t1 ELSE s - C.dt < C.t0
Due(s) == s % C.outf = 0 \/ Last(s)

Note(clause, i, j, x, y) == <<[run |-> C.id, clause |-> clause, t |-> t, row |-> i, col |-> j, model |-> x, observed |-> y]>>
Fields == {"u", "l", "tag", "rl", "ru", "loss", "gain"}
Differ(f) == {w \in Cells : C.A[o][f][w[1]][w[2]] # C.B[o][f][w[1]][w[2]]}
Judge == LET D(f) == Differ(f) \ reach
             B == {f \in Fields : D(f) # {}}
         IN IF B = {} THEN <<>>
            ELSE LET f == CHOOSE f \in B : TRUE
                     w == CHOOSE w \in D(f) : TRUE
                 IN Note(f, w[1], w[2], C.A[o][f][w[1]][w[2]], C.B[o][f][w[1]][w[2]])

Init == c = 1 /\ t = 0 /\ reach = {} /\ o = 1 /\ phase = "start" /\ far = 0 /\ bad = <<>> /\ verdict = <<>>
Start == /\ phase = "start" /\ c <= Len(Cases)
         /\ t' = (IF Fwd THEN C.t0 ELSE C.t1) /\ reach' = {} /\ o' = 1 /\ far' = 0 /\ bad' = <<>> /\ phase' = "run"
         /\ UNCHANGED <<c, verdict>>
Step == /\ phase = "run" /\ CanStep
        /\ reach' = Around(reach) \cup (IF Touched(t) THEN Around(Changed) ELSE {}) \cup (IF Tags(t) THEN Changed ELSE {})
        /\ t' = (IF Fwd THEN t + C.dt ELSE t - C.dt)
        /\ phase' = (IF Due(t') THEN "judge" ELSE "run")
        /\ UNCHANGED <<c, o, far, bad, verdict>>
Output == /\ phase = "judge" /\ o <= Len(C.A) /\ o <= Len(C.B) /\ C.A[o].t = t /\ C.B[o].t = t
          /\ bad' = bad \o Judge
          /\ far' = Max(far, Cardinality(Differ("u") \cup Differ("l")))
          /\ o' = o + 1 /\ phase' = "run" /\ UNCHANGED <<c, t, reach, verdict>>
Absent == /\ phase = "judge" /\ ~(o <= Len(C.A) /\ o <= Len(C.B) /\ C.A[o].t = t /\ C.B[o].t = t)
          /\ bad' = bad \o Note("output-missing", 0, 0, Len(C.A), Len(C.B))
          /\ phase' = "end" /\ UNCHANGED <<c, t, reach, o, far, verdict>>
Done == /\ phase = "run" /\ ~CanStep /\ phase' = "end" /\ UNCHANGED <<c, t, reach, o, far, bad, verdict>>
Finish == /\ phase = "end"
          /\ verdict' = Append(verdict, [run |-> C.id, ok |-> bad = <<>>, differed |-> far, beyond |-> C.m * C.n - Cardinality(reach), bad |-> SubSeq(bad, 1, Min(Len(bad), 4))])
          /\ c' = c + 1 /\ phase' = (IF c' > Len(Cases) THEN "done" ELSE "start") /\ UNCHANGED <<t, reach, o, far, bad>>
Write == phase = "done" /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written" /\ UNCHANGED <<c, t, reach, o, far, bad, verdict>>
Next == Start \/ Step \/ Output \/ Absent \/ Done \/ Finish \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
