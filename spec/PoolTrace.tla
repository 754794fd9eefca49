----------------------------- MODULE PoolTrace ------------------------------
(* Recorded parallel runs against Pool: the order in which the workers began *)
(* and ended days and wrote times, the files and the exit status.            *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, e, open, written, phase, bad, verdict
vars == <<c, e, open, written, phase, bad, verdict>>
R == Cases[c]
E == R.events[e]                    \* [worker, day, times]: a write by a worker
Bad == {R.bad[n] : n \in 1..Len(R.bad)}
Note(clause, m, ob) == <<[run |-> R.id, clause |-> clause, t |-> e, model |-> m, observed |-> ob]>>
Expect(clause, m, ob) == IF m = ob THEN <<>> ELSE Note(clause, m, ob)
Init == c = 1 /\ e = 1 /\ open = <<>> /\ written = <<>> /\ phase = "start" /\ bad = <<>> /\ verdict = <<>>
Start == /\ phase = "start" /\ c <= Len(Cases)
         /\ e' = 1 /\ bad' = <<>> /\ written' = [d \in 1..R.days |-> 0] /\ open' = [d \in 1..R.days |-> 0] /\ phase' = "run" /\ UNCHANGED <<c, verdict>>
Event == /\ phase = "run" /\ e <= Len(R.events)
         /\ written' = [written EXCEPT ![E.day] = @ + 1]
         /\ open' = [open EXCEPT ![E.day] = E.worker]
         /\ bad' = bad \o Expect("a day is written by one worker", TRUE, open[E.day] \in {0, E.worker})
                       \o Expect("nothing is written for unusable data", TRUE, E.day \notin Bad)
         /\ e' = e + 1 /\ UNCHANGED <<c, phase, verdict>>
End == /\ phase = "run" /\ e > Len(R.events)
       /\ bad' = bad \o Expect("exit status", Bad = {}, R.code = 0)
                     \o (IF Bad = {} THEN Expect("files", R.expected, R.digests) ELSE
                         Expect("no file for unusable data", {}, {d \in Bad : R.digests[d] # 0}))
                     \o Expect("other files", 0, R.other)
       /\ phase' = "end" /\ UNCHANGED <<c, e, open, written, verdict>>
Finish == /\ phase = "end"
          /\ verdict' = Append(verdict, [run |-> R.id, ok |-> bad = <<>>, bad |-> bad, events |-> Len(R.events)])
          /\ c' = c + 1 /\ phase' = (IF c' > Len(Cases) THEN "done" ELSE "start") /\ UNCHANGED <<e, open, written, bad>>
Write == phase = "done" /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written" /\ UNCHANGED <<c, e, open, written, bad, verdict>>
Next == Start \/ Event \/ End \/ Finish \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
