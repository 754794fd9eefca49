----------------------------- MODULE DefectGen -----------------------------
(* Every way in which raw data can be unusable (and some in which it only    *)
(* looks so), and the times at which preprocessing has to stop because of    *)
(* it.  A run has the times 1..4 on two days, 1..2 and 3..4.                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
VARIABLES phase
Times == 1..4
DayOf(t) == IF t <= 2 THEN 1 ELSE 2
Kinds == {<<"era5", "ml">>, <<"era5", "pl">>, <<"cmip", "pl">>, <<"arco", "pl">>}
LevelVars == {"q", "u", "v"}
Required(s) == LevelVars \cup {"ps", "p", "e"} \cup (IF s[2] = "pl" THEN {"qs", "us", "vs"} ELSE {})
Optional(s) == IF s[1] = "era5" THEN {"tcw"} ELSE {}
Given(s) == Required(s) \cup Optional(s) \cup (IF s[1] = "arco" THEN {"tcw"} ELSE {})
Defects(s) ==
       {[d |-> "nan", v |-> v, t |-> t] : v \in Given(s), t \in Times}
  \cup {[d |-> "extradim", v |-> v, t |-> 0] : v \in Given(s)}
  \cup {[d |-> "lostdim", v |-> v, t |-> 0] : v \in Given(s)}
  \cup {[d |-> "renamed", v |-> v, t |-> 0] : v \in Given(s)}
  \cup (IF s[1] = "arco" THEN {} ELSE {[d |-> "nofile", v |-> v, t |-> IF s[1] = "cmip" THEN 0 ELSE t] : v \in Given(s), t \in {0, 3}})
  \cup (IF s[1] = "arco" THEN {} ELSE {[d |-> "notime", v |-> v, t |-> t] : v \in Given(s) \ (IF s[1] = "cmip" THEN {"p", "e"} ELSE {}), t \in {1, 2, 4}})
  \cup (IF s[1] = "cmip" THEN {[d |-> "offset", v |-> "p", t |-> 0]} ELSE {[d |-> "nolevel", v |-> v, t |-> 0] : v \in LevelVars})
  \* all model levels wanted, but one variable lacks one, or all variables some
  \cup (IF s[2] = "ml" THEN {[d |-> "gap", v |-> v, t |-> 0] : v \in LevelVars} \cup {[d |-> "subset", v |-> "q", t |-> 0], [d |-> "every-level", v |-> "q", t |-> 0]} ELSE {})
  \* complete data all the same
  \cup {[d |-> "nothing", v |-> "q", t |-> 0]}
  \cup (IF s[1] = "cmip" THEN {} ELSE {[d |-> "nan-unused-level", v |-> v, t |-> t] : v \in LevelVars, t \in Times})
  \cup {[d |-> "nan-unused-time", v |-> v, t |-> t] : v \in Given(s), t \in {1, 4}}
Harmless == {"nothing", "every-level", "nan-unused-level", "nan-unused-time"}
Hits(s, x, t) ==                   \* the data of time t is unusable
  CASE x.d \in Harmless -> FALSE
    [] x.d \in {"nan", "notime"} -> t = x.t
    [] x.d = "nofile" -> x.v \in Required(s) /\ (x.t = 0 \/ DayOf(t) = DayOf(x.t))
    [] OTHER -> TRUE
Cases == UNION {{[source |-> s[1], kind |-> s[2], defect |-> x.d, var |-> x.v, time |-> x.t,
                  bad |-> SetToSortSeq({t \in Times : Hits(s, x, t)}, <)] : x \in Defects(s)} : s \in Kinds}
Init == phase = "run"
Write == phase = "run" /\ JsonSerialize(IOEnv.VF_OUT, SetToSeq(Cases)) /\ phase' = "written"
Next == Write
Spec == Init /\ [][Next]_phase
=============================================================================
