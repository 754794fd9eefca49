----------------------------- MODULE InputTrace -----------------------------
(* Recorded calls of the check of forcing data: what was reported against    *)
(* the problems of the data.                                                 *)
EXTENDS InputCheck, FiniteSets, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, verdict, phase
vars == <<c, verdict, phase>>
C == Cases[c]
Data == [vars |-> [v \in Names |-> C.vars[v]], coords |-> [d \in Dims |-> C.coords[d]]]
Said == {<<C.said[k].kind, C.said[k].var, C.said[k].coord>> : k \in 1..Len(C.said)}
Note(clause, p) == <<[clause |-> clause, problem |-> p]>>
Judge ==
  LET P == Problems(Data) IN
  IF ~C.ok THEN Note("failed", <<"", "", "">>)
  ELSE IF P \ Said # {} THEN Note("not-reported", CHOOSE p \in P \ Said : TRUE)
  ELSE IF Said \ P # {} THEN Note("reported-without-reason", CHOOSE p \in Said \ P : TRUE)
  ELSE <<>>
Init == c = 1 /\ verdict = <<>> /\ phase = "run"
Step == /\ phase = "run" /\ c <= Len(Cases)
        /\ LET b == Judge IN verdict' = Append(verdict, [run |-> C.id, ok |-> b = <<>>, bad |-> b, problems |-> Cardinality(Problems(Data))])
        /\ c' = c + 1
        /\ phase' = IF c' > Len(Cases) THEN "done" ELSE "run"
Write == phase = "done" /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written" /\ UNCHANGED <<c, verdict>>
Next == Step \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
