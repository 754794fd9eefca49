-------------------------------- MODULE CliMC -------------------------------
(* All sequences of commands on all folders, on the specification alone.     *)
EXTENDS Cli
VARIABLES s, last, ok
vars == <<s, last, ok>>
Few == {x \in Commands : x.place = "own" /\ ~x.debug}
Init == s \in [raw : SUBSET Sources, pre : {"none", "era5"}, forward : {FALSE}, backward : {FALSE}] /\ last = "none" /\ ok = TRUE
Next == \E x \in Few : s' = After(s, x) /\ last' = x.do /\ ok' = Succeeds(s, x)
Spec == Init /\ [][Next]_vars
\* results and preprocessed data come only from what was asked for and was there
FromSomewhere == /\ s.forward \/ s.backward => s.pre # "none"
                 /\ s.pre # "none" => s.pre \in s.raw \cup {"era5"}
\* a failing command leaves everything, a succeeding one undoes nothing
FailsCleanly == [][~ok' => s' = s]_vars
KeepsResults == [][\A d \in Directions : s[d] => s'[d]]_vars
KeepsRaw == [][s'.raw = s.raw]_vars
\* one command changes one thing
OneThing == [][Cardinality({f \in {"pre", "forward", "backward"} : s[f] # s'[f]}) <= 1]_vars
=============================================================================
