------------------------------- MODULE Fetch --------------------------------
(* Fetching raw data: for each day and variable one file, each by a request  *)
(* of its own. What is there already is not asked for again (unless that is  *)
(* wanted); a request that fails keeps nothing else from being fetched, and  *)
(* running again fetches what is missing. A run can be stopped anywhere.     *)
EXTENDS Integers, FiniteSets
\* a file: "none", "own" (there before), "got" (as served)
Begin(disk) == [disk |-> disk, asked |-> {}]
CanAsk(s, i, skip) == i \notin s.asked /\ (~skip \/ s.disk[i] = "none")
Ask(s, i, ok) == [disk |-> IF ok THEN [s.disk EXCEPT ![i] = "got"] ELSE s.disk, asked |-> s.asked \cup {i}]
Complete(s, skip) == \A i \in DOMAIN s.disk : i \in s.asked \/ (skip /\ s.disk[i] # "none")
=============================================================================
