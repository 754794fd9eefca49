------------------------------ MODULE FetchMC -------------------------------
(* All histories of up to RUNS runs over a few files.                        *)
EXTENDS Fetch, Sequences
CONSTANTS ITEMS, RUNS
VARIABLES first, s, skip, run, failed, ph, hist
vars == <<first, s, skip, run, failed, ph, hist>>
Init == /\ first \in [ITEMS -> {"none", "own"}] /\ s = Begin(first) /\ skip \in BOOLEAN /\ run = 1 /\ failed = {} /\ ph = "run" /\ hist = {}
Request == \E i \in ITEMS, ok \in BOOLEAN :
  /\ ph = "run" /\ CanAsk(s, i, skip) /\ s' = Ask(s, i, ok)
  /\ failed' = (IF ok THEN failed ELSE failed \cup {i}) /\ UNCHANGED <<first, skip, run, ph, hist>>
Done == ph = "run" /\ Complete(s, skip) /\ ph' = "done" /\ UNCHANGED <<first, s, skip, run, failed, hist>>
Stop == ph = "run" /\ ~Complete(s, skip) /\ ph' = "stopped" /\ UNCHANGED <<first, s, skip, run, failed, hist>>
Again == /\ ph # "run" /\ run < RUNS /\ run' = run + 1 /\ s' = Begin(s.disk) /\ skip' \in BOOLEAN /\ failed' = {}
         /\ hist' = hist \cup {skip} /\ ph' = "run" /\ UNCHANGED first
Next == Request \/ Done \/ Stop \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Request) /\ WF_vars(Done)
Skips == hist \cup {skip} = {TRUE}
OwnIsKept == Skips => \A i \in ITEMS : first[i] = "own" => s.disk[i] = "own"
OnlyFailedAreMissing == ph = "done" => \A i \in ITEMS : s.disk[i] = "none" => i \in failed
AskedIsNew == skip => \A i \in s.asked : s.disk[i] # "own"
AllIsFetched == (ph = "done" /\ ~skip) => \A i \in ITEMS : i \in failed \/ s.disk[i] = "got"
Ends == []<>(ph # "run")
=============================================================================
