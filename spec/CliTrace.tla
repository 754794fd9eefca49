------------------------------ MODULE CliTrace ------------------------------
(* Recorded sequences of commands against Cli.                               *)
EXTENDS Cli, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, k, s, bad, phase, verdict
vars == <<c, k, s, bad, phase, verdict>>
R == Cases[c]
E == R.steps[k]
Note(clause, m, ob) == <<[clause |-> clause, step |-> k, model |-> m, observed |-> ob]>>
Expect(clause, m, ob) == IF m = ob THEN <<>> ELSE Note(clause, m, ob)
Begin == [raw |-> {R.world.raw[n] : n \in 1..Len(R.world.raw)}, pre |-> R.world.pre, forward |-> FALSE, backward |-> FALSE]
Init == c = 1 /\ k = 0 /\ s = <<>> /\ bad = <<>> /\ phase = "run" /\ verdict = <<>>
Start == /\ phase = "run" /\ c <= Len(Cases) /\ k = 0
         /\ s' = Begin /\ k' = 1 /\ bad' = <<>> /\ UNCHANGED <<c, phase, verdict>>
Results(st) == [pre |-> st.pre, forward |-> IF st.forward THEN "whole" ELSE "none", backward |-> IF st.backward THEN "whole" ELSE "none"]
\* a command that succeeds writes its own results, also if they are there already, and nothing else
Writes(x) == CASE x.do = "track" -> {x.arg} [] x.do = "preprocess" -> {"pre"} [] OTHER -> {}
Step == /\ phase = "run" /\ k > 0 /\ k <= Len(R.steps)
        /\ LET x == E.command  t == After(s, x)  r == Results(t)  fine == Succeeds(s, x) IN
           /\ bad' = bad \o Expect("exit status is zero", fine, E.code = 0)
                \o Expect("configuration files are left alone", TRUE, E.untouched)
                \o (IF fine /\ x.do \in {"track", "preprocess"}
                    THEN Expect("copy of the configuration next to the results", TRUE, E.copy) \o Expect("log next to the results", TRUE, E.log) ELSE <<>>)
                \o (IF Partial(s, x) THEN
                      (IF x.do = "track" THEN Expect("preprocessed data", r.pre, E.pre)
                                              \o (IF x.arg = "forward" THEN Expect("backward results", r.backward, E.backward) ELSE Expect("forward results", r.forward, E.forward))
                       ELSE Expect("forward results", r.forward, E.forward) \o Expect("backward results", r.backward, E.backward))
                    ELSE Expect("preprocessed data", r.pre, E.pre) \o Expect("forward results", r.forward, E.forward) \o Expect("backward results", r.backward, E.backward))
                \o Expect("other files", 0, E.other)
                \o (IF fine THEN Expect("what was written", Writes(x), {E.wrote[n] : n \in 1..Len(E.wrote)}) ELSE <<>>)
           \* go on from what is there
           /\ s' = [raw |-> s.raw, pre |-> IF E.pre \in Sources THEN E.pre ELSE t.pre, forward |-> E.forward = "whole", backward |-> E.backward = "whole"]
        /\ k' = k + 1 /\ UNCHANGED <<c, phase, verdict>>
Finish == /\ phase = "run" /\ k > 0 /\ k > Len(R.steps)
          /\ verdict' = Append(verdict, [run |-> R.id, ok |-> bad = <<>>, bad |-> bad, steps |-> Len(R.steps), succeeded |-> Cardinality({n \in 1..Len(R.steps) : R.steps[n].code = 0})])
          /\ c' = c + 1 /\ k' = 0 /\ s' = <<>> /\ bad' = <<>> /\ UNCHANGED phase
Write == phase = "run" /\ c > Len(Cases) /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written" /\ UNCHANGED <<c, k, s, bad, verdict>>
Next == Start \/ Step \/ Finish \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
