------------------------------ MODULE FetchGen ------------------------------
(* Situations: for each of SLOTS picked files whether it is there, fails in  *)
(* the first run, or both runs; whether the runs skip what is there, whether *)
(* the first is stopped, and whether an area is set.                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils
CONSTANT SLOTS
Situations == [slots : [1..SLOTS -> {"fine", "there", "fails", "fails twice"}], skip : BOOLEAN, again : BOOLEAN, stop : BOOLEAN, area : BOOLEAN]
VARIABLE done
Init == done = FALSE
Next == ~done /\ JsonSerialize(IOEnv.VF_OUT, SetToSeq(Situations)) /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
