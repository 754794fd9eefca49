----------------------------- MODULE ScheduleMC -----------------------------
(* The schedule itself, for all small runs: time advances monotonically by   *)
(* whole steps within the period, outputs partition the steps, nothing is    *)
(* counted twice, and as much of the period as possible is covered.          *)
(* Calendars: every model day has a date, dates increase, months and years   *)
(* have their length.                                                        *)
EXTENDS Schedule, FiniteSets, TLC
CONSTANTS MaxT, Cals, BASES
VARIABLES r, t, outs, n, phase
vars == <<r, t, outs, n, phase>>
Init == /\ r \in [dir: {"forward", "backward"}, t0: 0..3, t1: 3..MaxT, dt: 1..4, outf: 1..6]
        /\ t = FirstTime(r) /\ outs = <<>> /\ n = 0 /\ phase = "run"
Step == /\ CanStep(r, t)
        /\ t' = After(r, t)
        /\ IF Due(r, t') THEN outs' = Append(outs, [t |-> t', steps |-> n + 1]) /\ n' = 0
           ELSE outs' = outs /\ n' = n + 1
        /\ UNCHANGED <<r, phase>>
Next == Step
Spec == Init /\ [][Next]_vars
Total == LET f[i \in 0..Len(outs)] == IF i = 0 THEN 0 ELSE f[i-1] + outs[i].steps IN f[Len(outs)]
Inside == r.t0 <= t /\ t <= r.t1
Done == ~CanStep(r, t)
\* at the end every step is in exactly one output and less than a step is left
AllCovered == Done => /\ n = 0
                      /\ Total * r.dt = (IF r.dir = "forward" THEN t - r.t0 ELSE r.t1 - t)
                      /\ (IF r.dir = "forward" THEN r.t1 - t ELSE t - r.t0) < r.dt
\* an output for each multiple of the output frequency that is a model time, and the last
EachOnce == Done => {outs[i].t : i \in 1..Len(outs)}
                    = {x \in {FirstTime(r) + (IF r.dir = "forward" THEN k ELSE -k) * r.dt : k \in 1..Total} : x % r.outf = 0 \/ x = t}
Distinct == \A i, j \in 1..Len(outs) : outs[i].t = outs[j].t => i = j

ASSUME CalendarsSound ==
  \A cal \in Cals : \A b \in BASES :
    LET len == IF cal = "360_day" THEN 360 ELSE IF Leap(cal, b) THEN 366 ELSE 365
    IN /\ AddDays(cal, <<b, 1, 1>>, len) = <<b + 1, 1, 1>>
       /\ \A k \in 0..(len - 1) : AddDays(cal, <<b, 1, 1>>, k)[1] = b
ALLCALS1 == {"standard", "gregorian", "proleptic_gregorian", "noleap", "365_day", "360_day", "julian", "all_leap", "366_day"}
YEARS1 == {1900, 2000, 2023, 2024, 2100}
=============================================================================
