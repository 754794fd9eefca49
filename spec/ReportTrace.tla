----------------------------- MODULE ReportTrace ------------------------------
(* Log lines of complete runs against the output files of the same runs.     *)
EXTENDS Report, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, geo, k, sums, bad, phase, verdict, stats
vars == <<c, geo, k, sums, bad, phase, verdict, stats>>
C == Cases[c]
None == [reports |-> 0, withTagged |-> 0, withLosses |-> 0, withBoundary |-> 0, withGains |-> 0]

Init == /\ c = 1 /\ geo = <<>> /\ k = 1 /\ sums = Nothing /\ bad = <<>> /\ phase = "start" /\ verdict = <<>>
        /\ stats = None
Start ==
  /\ phase = "start" /\ c <= Len(Cases)
  /\ geo' = MkGrid(C.m, C.n, C.lat, C.dlat, C.dlon, C.per)
  /\ k' = 1 /\ sums' = Nothing /\ phase' = "run"
  /\ UNCHANGED <<c, bad, verdict, stats>>

Note(clause, m, o) == <<[run |-> C.id, out |-> k, clause |-> clause, model |-> m, observed |-> o]>>
\* printed to two decimals; the totals of the specification are off by a few units per row
Slack(T) == ONE \div 150 + Percent(4 * C.m * k, T)
Is(clause, x, T, o) == IF Near(Percent(x, T), o, Slack(T) + Abs(Percent(x, T)) \div 4000) THEN <<>> ELSE Note(clause, Percent(x, T), o)

Judge(s, air, r) ==
  IF s.tagged = 0
  THEN \* nothing tagged: there is no percentage to give
       IF r.tracked = NAN /\ r.air = NAN /\ r.closure = NAN THEN <<>> ELSE Note("percentage-of-nothing", 0, r.tracked)
  ELSE IF s.tagged < ONE THEN <<>>           \* too little for this precision
  ELSE Is("tracked", s.tracked, s.tagged, r.tracked) \o Is("air", air, s.tagged, r.air) \o Is("boundary", s.boundary, s.tagged, r.boundary)
       \o Is("lost", s.lost, s.tagged, r.lost) \o Is("gained", s.gained, s.tagged, r.gained)
       \o (LET sum == r.tracked + r.air + r.boundary + r.lost - r.gained
           IN IF Near(sum, r.closure, ONE \div 30 + Abs(r.closure) \div 10000) THEN <<>> ELSE Note("closure-adds-up", sum, r.closure))
       \o (IF C.restart \/ Near(r.closure, HUNDRED, ONE \div 20 + (r.gained \div 2000)) THEN <<>> ELSE Note("closure-100", HUNDRED, r.closure))

Report1 ==
  /\ phase = "run" /\ k <= Len(C.outs) /\ k <= Len(C.reports)
  /\ LET ob == C.outs[k]
         r == C.reports[k]
         s == Account(geo, C.lat, sums, ob)
     IN /\ sums' = s
        /\ bad' = bad \o (IF r.t # ob.t THEN Note("time", ob.t, r.t) ELSE Judge(s, InAir(geo, C.lat, ob), r))
        /\ stats' = [stats EXCEPT !.reports = @ + 1, !.withTagged = @ + (IF s.tagged >= ONE THEN 1 ELSE 0), !.withLosses = @ + (IF s.lost > 100 THEN 1 ELSE 0),
                      !.withBoundary = @ + (IF s.boundary > 100 THEN 1 ELSE 0), !.withGains = @ + (IF s.gained > 100 THEN 1 ELSE 0)]
  /\ k' = k + 1
  /\ UNCHANGED <<c, geo, phase, verdict>>
Complete ==
  /\ phase = "run" /\ (k > Len(C.outs) \/ k > Len(C.reports))
  /\ bad' = IF Len(C.outs) = Len(C.reports) THEN bad ELSE bad \o Note("number", Len(C.outs), Len(C.reports))
  /\ phase' = "end"
  /\ UNCHANGED <<c, geo, k, sums, verdict, stats>>
Finish ==
  /\ phase = "end"
  /\ verdict' = Append(verdict, [run |-> C.id, ok |-> bad = <<>>, bad |-> SubSeq(bad, 1, Min(Len(bad), 4)), stats |-> stats])
  /\ stats' = None /\ bad' = <<>> /\ c' = c + 1
  /\ phase' = IF c' > Len(Cases) THEN "done" ELSE "start"
  /\ UNCHANGED <<geo, k, sums>>
Write ==
  /\ phase = "done" /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written"
  /\ UNCHANGED <<c, geo, k, sums, bad, verdict, stats>>
Next == Start \/ Report1 \/ Complete \/ Finish \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
