------------------------------ MODULE RetryGen ------------------------------
(* Scripts of failures: which opening of a file fails how often, and how it  *)
(* then goes on.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANT PAIRS
VARIABLES phase
Others == {"OSError", "FileNotFoundError", "ValueError", "KeyError", "RuntimeError", "MemoryError", "PermissionError", "TypeError", "LookupError"}
F(at, times, then) == [at |-> at, times |-> times, then |-> then]
Cases ==
       {<<F(a, n, "ok")>> : a \in {1, 2, 5}, n \in 0..11}
  \cup {<<F(a, n, o)>> : a \in {1, 4}, n \in {0, 1, 4, 8}, o \in Others}
  \cup {<<F(1, n, "ok"), F(2, m, "ok")>> : n \in PAIRS, m \in PAIRS}
  \cup {<<F(1, n, "ok"), F(3, m, o)>> : n \in {3, 8}, m \in {0, 2}, o \in {"OSError", "KeyError"}}
  \cup {<<F(1, 8, "ok"), F(2, 8, "ok"), F(3, 8, "ok"), F(4, 9, "ok")>>}
Init == phase = "run"
Write == phase = "run" /\ JsonSerialize(IOEnv.VF_OUT, SetToSeq(Cases)) /\ phase' = "written"
Next == Write
Spec == Init /\ [][Next]_phase
SOME1 == {1, 5, 8}
SOME2 == 0..9
=============================================================================
