----------------------------- MODULE FetchTrace -----------------------------
(* Recorded runs of a download script against Fetch. Per case: items (names  *)
(* of day and variable), first (those there before), and runs:               *)
(*   skip, stopped, events [item, ok, hours, area, grid, levels, data],      *)
(*   files after it [item, is], other (number of further files).             *)
EXTENDS Fetch, Sequences, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, k, e, s, phase, bad, verdict
vars == <<c, k, e, s, phase, bad, verdict>>
R == Cases[c]
Q == R.runs[k]
E == Q.events[e]
SetOf(q) == {q[n] : n \in 1..Len(q)}
Items == SetOf(R.items)
Note(clause, item, m, ob) == <<[clause |-> clause, run |-> k, item |-> item, model |-> m, observed |-> ob]>>
Expect(clause, item, m, ob) == IF m = ob THEN <<>> ELSE Note(clause, item, m, ob)
Found(i) == IF \E n \in 1..Len(Q.files) : Q.files[n][1] = i THEN Q.files[CHOOSE n \in 1..Len(Q.files) : Q.files[n][1] = i][2] ELSE "none"
Init == c = 1 /\ k = 1 /\ e = 1 /\ s = Begin(<<>>) /\ phase = "start" /\ bad = <<>> /\ verdict = <<>>
Start == /\ phase = "start" /\ c <= Len(Cases)
         /\ s' = Begin([i \in Items |-> IF i \in SetOf(R.first) THEN "own" ELSE "none"])
         /\ k' = 1 /\ e' = 1 /\ bad' = <<>> /\ phase' = "run" /\ UNCHANGED <<c, verdict>>
Request == /\ phase = "run" /\ e <= Len(Q.events)
           /\ bad' = bad \o (IF E.item \notin Items THEN Note("something else is requested", E.item, "", E.item)
                             ELSE IF ~CanAsk(s, E.item, Q.skip) THEN Note("requested although there", E.item, s.disk[E.item], "requested")
                             ELSE <<>>)
                         \o Expect("hours", E.item, SetOf(R.hours), SetOf(E.hours)) \o Expect("area", E.item, R.area, E.area)
                         \o Expect("grid", E.item, R.grid, E.grid) \o Expect("levels", E.item, SetOf(R.levels), IF E.plain THEN SetOf(R.levels) ELSE SetOf(E.levels))
           /\ s' = (IF E.item \in Items THEN Ask(s, E.item, E.ok) ELSE s)
           /\ e' = e + 1 /\ UNCHANGED <<c, k, phase, verdict>>
End == /\ phase = "run" /\ e > Len(Q.events)
       /\ bad' = bad \o (IF Q.stopped \/ Complete(s, Q.skip) THEN <<>>
                         ELSE LET i == CHOOSE i \in Items : i \notin s.asked /\ ~(Q.skip /\ s.disk[i] # "none") IN Note("never requested", i, "requested", Q.error))
                     \o (LET D == {i \in Items : Found(i) # s.disk[i]} IN
                         IF D = {} THEN <<>> ELSE LET i == CHOOSE i \in D : TRUE IN Note("file", i, s.disk[i], Found(i)))
                     \o Expect("other files", "", <<>>, Q.other)
       /\ IF k < Len(R.runs) THEN k' = k + 1 /\ e' = 1 /\ s' = Begin(s.disk) /\ phase' = "run"
          ELSE phase' = "end" /\ UNCHANGED <<k, e, s>>
       /\ UNCHANGED <<c, verdict>>
Finish == /\ phase = "end"
          /\ verdict' = Append(verdict, [run |-> R.id, ok |-> bad = <<>>, bad |-> bad])
          /\ c' = c + 1 /\ phase' = (IF c' > Len(Cases) THEN "done" ELSE "start") /\ UNCHANGED <<k, e, s, bad>>
Write == phase = "done" /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written" /\ UNCHANGED <<c, k, e, s, bad, verdict>>
Next == Start \/ Request \/ End \/ Finish \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
