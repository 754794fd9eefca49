------------------------------ MODULE Download ------------------------------
(* Downloading an example case: a directory is made, the description of the  *)
(* data, its catalogue and its file list are requested, and then every file; *)
(* any request may fail.  Design only: the order of the requests is free.    *)
EXTENDS Integers, FiniteSets
CONSTANTS CATALOGUE, LIST, THERE
VARIABLES dir, known, files, asked, failed, state
vars == <<dir, known, files, asked, failed, state>>
Wanted == CATALOGUE \cup LIST
\* contents: "served", "kept" (was there before)
Init == /\ dir \in {{}, THERE} /\ known = {} /\ files = [f \in dir |-> "kept"] /\ asked = 0 /\ failed = FALSE
        /\ state = (IF dir = {} THEN "new" ELSE "refused")
Make == state = "new" /\ state' = "busy" /\ UNCHANGED <<dir, known, files, asked, failed>>
\* one request, to learn of files or to get one that is known of
Learn(s) == /\ state = "busy" /\ ~(s \subseteq known) /\ known' = known \cup s /\ asked' = asked + 1 /\ UNCHANGED <<dir, files, failed, state>>
Get == /\ state = "busy"
       /\ \E f \in known \ DOMAIN files : files' = [g \in DOMAIN files \cup {f} |-> IF g = f THEN "served" ELSE files[g]]
       /\ asked' = asked + 1 /\ UNCHANGED <<dir, known, failed, state>>
Fail == state = "busy" /\ failed' = TRUE /\ state' = "stopped" /\ asked' = asked + 1 /\ UNCHANGED <<dir, known, files>>
Done == state = "busy" /\ known = Wanted /\ DOMAIN files = Wanted /\ state' = "done" /\ UNCHANGED <<dir, known, files, asked, failed>>
Next == Make \/ Learn(CATALOGUE) \/ Learn(LIST) \/ Get \/ Fail \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ----
Untouched == dir # {} => files = [f \in dir |-> "kept"] /\ asked = 0
Complete == state = "done" => DOMAIN files = Wanted /\ \A f \in Wanted : files[f] = "served"
NotPassedOff == failed => state # "done"
OnlyServed == dir = {} => \A f \in DOMAIN files : files[f] = "served"
Ends == <>(state \in {"done", "stopped", "refused"})
SOME1 == {"a.nc", "b.nc"}
SOME2 == {"config.yaml", "a.txt"}
SOME3 == {"a.nc", "mine.txt"}
=============================================================================
