------------------------------ MODULE Schedule ------------------------------
(* The clock of a run in every supported calendar, and what it writes.       *)
(* Model time is in seconds after midnight of the base date.                 *)
EXTENDS Integers, Sequences

Leap(cal, y) ==
  CASE cal \in {"noleap", "365_day", "360_day"} -> FALSE
    [] cal \in {"all_leap", "366_day"}          -> TRUE
    [] cal = "julian"                           -> y % 4 = 0
    [] cal = "proleptic_gregorian"              -> y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
    [] cal \in {"standard", "gregorian"}        -> y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0 \/ y <= 1582)
Days(cal, y, m) ==
  IF cal = "360_day" THEN 30
  ELSE IF m = 2 THEN (IF Leap(cal, y) THEN 29 ELSE 28)
  ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

NextDay(cal, d) ==      \* d = <<year, month, day>>
  IF d[3] < Days(cal, d[1], d[2]) THEN <<d[1], d[2], d[3] + 1>>
  ELSE IF d[2] < 12 THEN <<d[1], d[2] + 1, 1>> ELSE <<d[1] + 1, 1, 1>>
RECURSIVE AddDays(_, _, _)
AddDays(cal, d, n) == IF n = 0 THEN d ELSE AddDays(cal, NextDay(cal, d), n - 1)

\* <<year, month, day, hour, minute, second>> of model time s >= 0
Stamp(cal, base, s) ==
  LET d == AddDays(cal, base, s \div 86400)
      r == s % 86400
  IN <<d[1], d[2], d[3], r \div 3600, (r % 3600) \div 60, r % 60>>

\* steps of a run: from start to end for forward, end to start for backward
CanStep(r, t) == IF r.dir = "forward" THEN t + r.dt <= r.t1 ELSE t - r.dt >= r.t0
After(r, t) == IF r.dir = "forward" THEN t + r.dt ELSE t - r.dt
FirstTime(r) == IF r.dir = "forward" THEN r.t0 ELSE r.t1
\* an output is due after a step that ends on the output frequency, or the last one
Due(r, t) == t % r.outf = 0 \/ ~CanStep(r, t)
=============================================================================
