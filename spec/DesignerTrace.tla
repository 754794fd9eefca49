--------------------------- MODULE DesignerTrace ----------------------------
(* Files written by the region designer, and what a run tags with them.      *)
EXTENDS Designer, Fx, Json, IOUtils, FiniteSets
Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, phase, bad, verdict, stats
vars == <<c, phase, bad, verdict, stats>>
C == Cases[c]
D == C.design
F == C.file[1]
R == C.run[1]
Times == IF D.kind = "track" THEN Len(D.points) ELSE 1
\* a region cannot be given by a bare number, nor come from an unknown collection
Sound == D.kind \in {"point", "track"} \/ (Known(D.source) /\ ~D.bare)

Note(clause, k, i, j, m, o) == <<[run |-> C.id, clause |-> clause, time |-> k, row |-> i, col |-> j, model |-> m, observed |-> o]>>
Want(k, i, j) == IF Marked(D, k, C.lat[i], C.lon[j]) THEN ONE ELSE 0
Wrong == {x \in (1..Times) \X (1..Len(C.lat)) \X (1..Len(C.lon)) : F.w[x[1]][x[2]][x[3]] # Want(x[1], x[2], x[3])}
AnyOf(S) == CHOOSE x \in S : \A y \in S : x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] <= y[3])))

JudgeFile ==
  IF ~Sound THEN (IF C.ok \/ C.file # <<>> THEN Note("not-refused", 0, 0, 0, 0, 1) ELSE <<>>)
  ELSE IF ~C.ok \/ C.file = <<>> THEN Note("failed", 0, 0, 0, 1, 0)
  ELSE IF F.lat # C.lat \/ F.lon # C.lon THEN Note("grid", 0, 0, 0, 0, 0)
  ELSE IF Len(F.w) # Times \/ F.dynamic # (D.kind = "track") THEN Note("times", 0, 0, 0, Times, Len(F.w))
  ELSE IF F.times # D.times THEN Note("times", 0, 0, 0, 0, 1)
  ELSE IF Wrong = {} THEN <<>>
  ELSE LET x == AnyOf(Wrong) IN Note("cells", x[1], x[2], x[3], Want(x[1], x[2], x[3]), F.w[x[1]][x[2]][x[3]])

\* the run tags one kg m-2 per step in marked cells
Nearest(s) == CHOOSE k \in 1..Times : \A q \in 1..Times : Abs(D.times[k] - s) <= Abs(D.times[q] - s)
At(s) == IF D.kind = "track" THEN Nearest(s) ELSE 1
RECURSIVE SumSteps(_, _, _)
SumSteps(k, i, j) == IF k > Len(R.steps) THEN 0 ELSE Want(At(R.steps[k]), i, j) + SumSteps(k+1, i, j)
WrongTag == {x \in {1} \X (1..Len(C.lat)) \X (1..Len(C.lon)) : ~Near(R.tagged[x[2]][x[3]], SumSteps(1, x[2], x[3]), 200)}
JudgeRun ==
  IF C.run = <<>> THEN <<>>
  ELSE IF ~R.ok THEN Note("run-failed", 0, 0, 0, 1, 0)
  ELSE IF WrongTag = {} THEN <<>>
  ELSE LET x == AnyOf(WrongTag) IN Note("tagged", 0, x[2], x[3], SumSteps(1, x[2], x[3]), R.tagged[x[2]][x[3]])

None == [marked |-> 0, cells |-> 0, refused |-> 0, runs |-> 0]
Init == c = 1 /\ phase = "file" /\ bad = <<>> /\ verdict = <<>> /\ stats = None
File == /\ phase = "file" /\ c <= Len(Cases)
        /\ bad' = JudgeFile /\ phase' = "run"
        /\ stats' = [stats EXCEPT !.refused = IF Sound THEN 0 ELSE 1, !.cells = Times * Len(C.lat) * Len(C.lon),
                       !.marked = IF Sound THEN Cardinality({x \in (1..Times) \X (1..Len(C.lat)) \X (1..Len(C.lon)) : Want(x[1], x[2], x[3]) = ONE}) ELSE 0]
        /\ UNCHANGED <<c, verdict>>
Run == /\ phase = "run"
       /\ bad' = IF bad = <<>> THEN JudgeRun ELSE bad
       /\ stats' = [stats EXCEPT !.runs = Len(C.run)]
       /\ phase' = "end" /\ UNCHANGED <<c, verdict>>
Finish == /\ phase = "end"
          /\ verdict' = Append(verdict, [run |-> C.id, ok |-> bad = <<>>, bad |-> bad, stats |-> stats])
          /\ c' = c + 1 /\ stats' = None /\ bad' = <<>>
          /\ phase' = IF c' > Len(Cases) THEN "done" ELSE "file"
Write == /\ phase = "done" /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written" /\ UNCHANGED <<c, bad, verdict, stats>>
Next == File \/ Run \/ Finish \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
