----------------------------- MODULE RetryTrace -----------------------------
(* Recorded attempts and pauses of runs against Retry.                       *)
EXTENDS Retry, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, e, n, state, bad, phase, verdict
vars == <<c, e, n, state, bad, phase, verdict>>
R == Cases[c]
E == R.events[e]                    \* [kind |-> "open", file, outcome] or [kind |-> "pause", ms]
Note(clause, m, ob) == <<[clause |-> clause, event |-> e, model |-> m, observed |-> ob]>>
Expect(clause, m, ob) == IF m = ob THEN <<>> ELSE Note(clause, m, ob)
\* state: [is |-> "reading", file], [is |-> "pause", file], [is |-> "free"], [is |-> "failed", how]
Free == [is |-> "free", file |-> "", how |-> ""]
Init == c = 1 /\ e = 1 /\ n = 0 /\ state = Free /\ bad = <<>> /\ phase = "start" /\ verdict = <<>>
Start == phase = "start" /\ c <= Len(Cases) /\ e' = 1 /\ n' = 0 /\ state' = Free /\ bad' = <<>> /\ phase' = "run" /\ UNCHANGED <<c, verdict>>
Open == /\ phase = "run" /\ e <= Len(R.events) /\ E.kind = "open"
        /\ LET m == (IF state.is = "reading" THEN n ELSE 0) + 1  a == AfterAttempt(m, E.outcome) IN
           /\ bad' = bad \o (CASE state.is = "free" -> <<>>
                               [] state.is = "reading" -> Expect("file of the next attempt", state.file, E.file)
                               [] state.is = "pause" -> Note("a pause before the next attempt", "pause", "attempt")
                               [] state.is = "failed" -> Note("no further attempt", state.how, "attempt"))
           /\ n' = m
           /\ state' = (CASE a = "data" -> Free
                          [] a = "again" -> [is |-> "pause", file |-> E.file, how |-> ""]
                          [] a = "error" -> [is |-> "failed", file |-> E.file, how |-> IF E.outcome = "spurious" THEN "IndexError" ELSE E.outcome])
        /\ e' = e + 1 /\ UNCHANGED <<c, phase, verdict>>
Pause == /\ phase = "run" /\ e <= Len(R.events) /\ E.kind = "pause"
         /\ bad' = bad \o (IF state.is = "pause" THEN (IF PauseOk(n, E.ms) THEN <<>> ELSE Note("length of the pause in ms", 500 * Pow2(n - 1), E.ms)) ELSE Note("no pause", state.is, E.ms))
         /\ state' = (IF state.is = "pause" THEN [state EXCEPT !.is = "reading"] ELSE state)
         /\ e' = e + 1 /\ UNCHANGED <<c, n, phase, verdict>>
End == /\ phase = "run" /\ e > Len(R.events)
       /\ bad' = bad \o (IF state.is = "free" THEN Expect("exit status is zero", TRUE, R.code = 0) \o Expect("results", R.expected, R.digests)
                         ELSE IF state.is = "failed" THEN Expect("exit status is zero", FALSE, R.code = 0) \o Expect("error", state.how, R.error)
                         ELSE Note("all attempts", "another attempt", "none"))
       /\ phase' = "end" /\ UNCHANGED <<c, e, n, state, verdict>>
Finish == /\ phase = "end" /\ verdict' = Append(verdict, [run |-> R.id, ok |-> bad = <<>>, bad |-> bad, events |-> Len(R.events)])
          /\ c' = c + 1 /\ phase' = (IF c' > Len(Cases) THEN "done" ELSE "start") /\ UNCHANGED <<e, n, state, bad>>
Write == phase = "done" /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written" /\ UNCHANGED <<c, e, n, state, bad, verdict>>
Next == Start \/ Open \/ Pause \/ End \/ Finish \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
