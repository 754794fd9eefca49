---------------------------- MODULE DownloadTrace ---------------------------
(* Recorded downloads against Download.                                      *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, phase, verdict
vars == <<c, phase, verdict>>
R == Cases[c]
SetOf(q) == {q[n] : n \in 1..Len(q)}
Note(clause, m, ob) == <<[clause |-> clause, model |-> m, observed |-> ob]>>
Expect(clause, m, ob) == IF m = ob THEN <<>> ELSE Note(clause, m, ob)
Label(n) == IF \E k \in 1..Len(R.files) : R.files[k][1] = n THEN R.files[CHOOSE k \in 1..Len(R.files) : R.files[k][1] = n][2] ELSE "missing"
Failed == \E k \in 1..Len(R.requests) : ~R.requests[k][2]
Judge ==
  IF R.dir # "absent" THEN
       Expect("succeeds although the directory exists", FALSE, R.success) \o Expect("what is there is left alone", TRUE, R.kept) \o Expect("requests", 0, Len(R.requests))
  ELSE IF R.doi \in {"zenodo", "other", "none"} THEN
       Expect("succeeds without a known provider", FALSE, R.success) \o Expect("files", <<>>, R.files) \o Expect("requests", 0, Len(R.requests))
  ELSE (IF Failed THEN Expect("succeeds although a request failed", FALSE, R.success)
        ELSE Expect("succeeds", TRUE, R.success)
             \o (IF R.success THEN Expect("files that are not as served", {}, {n \in SetOf(R.wanted) : Label(n) # "served"})
                                   \o Expect("other files", {}, {n \in {R.files[k][1] : k \in 1..Len(R.files)} : n \notin SetOf(R.wanted)}) ELSE <<>>))
       \o Expect("files with something else than what was served", {}, {n \in {R.files[k][1] : k \in 1..Len(R.files)} : Label(n) \notin {"served", "prefix"}})
       \o Expect("files outside the directory", 0, R.outside)
Init == c = 1 /\ phase = "run" /\ verdict = <<>>
Step == /\ phase = "run" /\ c <= Len(Cases)
        /\ LET b == Judge IN verdict' = Append(verdict, [run |-> R.id, ok |-> b = <<>>, bad |-> b])
        /\ c' = c + 1 /\ UNCHANGED phase
Write == phase = "run" /\ c > Len(Cases) /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written" /\ UNCHANGED <<c, verdict>>
Next == Step \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
