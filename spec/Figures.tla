------------------------------ MODULE Figures -------------------------------
(* What `wam2layers visualize` shows: sums over the outputs of a run and     *)
(* over the forcing during tagging.                                          *)
EXTENDS Fx, Schedule

\* times of the outputs of run r that follow time t, in the order in which they are written
RECURSIVE OutputTimes(_, _)
OutputTimes(r, t) ==
  IF ~CanStep(r, t) THEN <<>>
  ELSE LET n == After(r, t) IN (IF Due(r, n) THEN <<n>> ELSE <<>>) \o OutputTimes(r, n)
AllTimes(r) == OutputTimes(r, FirstTime(r))

\* the figure of tracked moisture needs all of them; held: times of the stored outputs
Complete(r, held) == AllTimes(r) # <<>> /\ \A k \in 1..Len(AllTimes(r)) : AllTimes(r)[k] \in held

\* days whose forcing is needed for the figure of the tagged moisture
TaggingDays(r) == (r.tag0 \div 86400)..(r.tag1 \div 86400)

\* the records k (at time (k-1) * tin) that count, of n
RECURSIVE Tagging(_, _, _)
Tagging(r, k, n) == IF k > n THEN <<>>
  ELSE (IF r.tag0 <= (k-1) * r.tin /\ (k-1) * r.tin <= r.tag1 THEN <<k>> ELSE <<>>) \o Tagging(r, k+1, n)

\* from an amount per time step to an amount per input interval
PerInput(r, x) == (x * (r.tin \div 60)) \div (r.dt \div 60)

\* what each figure shows, and of what it consists
Shows(what) == CASE what = "output" -> <<"tracked">> [] what = "input" -> <<"tagged">> [] OTHER -> <<"tagged", "tracked">>
FileName(what) == CASE what = "output" -> "cumulative_sources.png" [] what = "input" -> "input_event.png" [] OTHER -> "summary_subplots.png"
=============================================================================
