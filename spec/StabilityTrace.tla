--------------------------- MODULE StabilityTrace ---------------------------
(* Warnings of complete tracking runs: the model derives from the forcing    *)
(* what is cut in each step and layer (Transport!FaceMass and the cap), the  *)
(* policy of Stability says whether that is worth a warning, and the next    *)
(* recorded warning is consumed if so.                                       *)
EXTENDS Transport, Stability, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.VF_TRACE)

VARIABLES c, geo, phase, t, layer, cut, s, w, bad, verdict, stats
vars == <<c, geo, phase, t, layer, cut, s, w, bad, verdict, stats>>

C == Cases[c]
None == [observed |-> 0, cuts |-> 0, warnings |-> 0, unsure |-> 0, wide |-> 0, quiet |-> 0]
Fwd == C.dir = "forward"
Lerp(name, x) ==
  LET k == x \div C.tin
      r == x % C.tin
      A == C.recs[k+1][name]
  IN IF r = 0 THEN A
     ELSE LET B == C.recs[k+2][name]
          IN TLCEval([i \in 1..C.m |-> TLCEval([j \in 1..C.n |-> A[i][j] + Frac(B[i][j] - A[i][j], r, C.tin)])])

(* ---- what is cut in a layer during the step that starts at x --------------- *)
Early(x) == IF Fwd THEN x ELSE x - C.dt
\* factor of a cell: ONE when nothing is cut, -1 without any flux
Factor(fx, fy, sa) ==
  LET ft == Abs(fx) + Abs(fy) IN
  IF ft = 0 THEN -1 ELSE IF ft <= sa \div 2 THEN ONE ELSE Min(ONE, Div(sa \div 2, ft))
\* 0 not cut, 1 cut, 2 too close to tell
Class(fx, fy, sa) ==
  LET ft == Abs(fx) + Abs(fy)
      m == 40 + ft \div 20000 IN
  IF ft > sa \div 2 + m THEN 1 ELSE IF ft > sa \div 2 - m THEN 2 ELSE 0

Cuts(x, lay) ==
  LET mid == Early(x) + C.dt \div 2
      zx == IF lay = "upper" THEN "xu" ELSE "xl"
      zy == IF lay = "upper" THEN "yu" ELSE "yl"
      zs == IF lay = "upper" THEN "su" ELSE "sl"
      X == Lerp(zx, mid)
      Y == Lerp(zy, mid)
      S == Lerp(zs, x)
      cell(i, j) == [fx |-> Mul(X[i][j], geo.wy), fy |-> Mul(Y[i][j], geo.wx[i]), sa |-> Mul(S[i][j], geo.area[i])]
      G == TLCEval([i \in 1..C.m |-> TLCEval([j \in 1..C.n |-> cell(i, j)])])
      fac == TLCEval([i \in 1..C.m |-> TLCEval([j \in 1..C.n |-> Factor(G[i][j].fx, G[i][j].fy, G[i][j].sa)])])
      cls == TLCEval([i \in 1..C.m |-> TLCEval([j \in 1..C.n |-> Class(G[i][j].fx, G[i][j].fy, G[i][j].sa)])])
      Cells == (1..C.m) \X (1..C.n)
      blowing == {z \in Cells : fac[z[1]][z[2]] >= 0}
      RECURSIVE Total(_)
      Total(Z) == IF Z = {} THEN 0 ELSE LET z == CHOOSE z \in Z : TRUE IN fac[z[1]][z[2]] + Total(Z \ {z})
      strongest == IF blowing = {} THEN ONE
                   ELSE LET z == CHOOSE z \in blowing : \A y \in blowing : fac[z[1]][z[2]] <= fac[y[1]][y[2]]
                        IN fac[z[1]][z[2]]
      sure == Cardinality({z \in Cells : cls[z[1]][z[2]] = 1})
      near == Cardinality({z \in Cells : cls[z[1]][z[2]] = 2})
      pct(k) == ((100 * k * (ONE \div 64)) \div (C.m * C.n)) * 64
  IN [fac |-> fac, strongest |-> strongest, lo |-> pct(sure), hi |-> pct(sure + near), calm |-> blowing = {},
      mean |-> IF blowing = {} THEN 0 ELSE
               LET k == Cardinality(blowing) IN Total(blowing) \div k]

(* ---- a recorded warning ------------------------------------------------------ *)
\* printed to one decimal (percent) and two (factors), hence the half units
Reports(q, x) ==
  /\ q.t = x
  /\ Between(q.pct, cut.lo - ONE \div 15, cut.hi + ONE \div 15)
  /\ Near(q.strongest, cut.strongest, ONE \div 180)
  /\ Near(q.mean, cut.mean, ONE \div 180)
Matches == w <= Len(C.warnings) /\ Reports(C.warnings[w], t)
Note(clause, m, o) == <<[run |-> C.id, clause |-> clause, t |-> t, layer |-> layer, model |-> m, observed |-> o]>>

\* the stored field: the correction factors of the last warning of that time
FieldOk(F, O) ==
  \A i \in 1..C.m : \A j \in 1..C.n :
    IF F[i][j] < 0 THEN O[i][j] = NAN \/ O[i][j] = ONE ELSE Near(F[i][j], O[i][j], 60 + ONE \div 2000)
LastOfItsTime(k) == k = Len(C.warnings) \/ C.warnings[k+1].t # C.warnings[k].t
JudgeField(k) ==
  IF ~LastOfItsTime(k) THEN <<>>
  ELSE IF C.warnings[k].field = <<>> THEN Note("field-missing", k, 0)
  ELSE IF FieldOk(cut.fac, C.warnings[k].field[1]) THEN <<>> ELSE Note("field", k, 0)

(* ---- behaviour ----------------------------------------------------------------- *)
Init == /\ c = 1 /\ geo = <<>> /\ phase = "start" /\ t = 0 /\ layer = "upper" /\ cut = <<>> /\ s = {Fresh} /\ w = 1
        /\ bad = <<>> /\ verdict = <<>> /\ stats = None
Start ==
  /\ phase = "start" /\ c <= Len(Cases)
  /\ geo' = MkGrid(C.m, C.n, C.lat, C.dlat, C.dlon, C.per)
  /\ t' = (IF Fwd THEN C.t0 ELSE C.t1)
  /\ s' = {Fresh} /\ w' = 1 /\ layer' = "upper" /\ phase' = "cut"
  /\ UNCHANGED <<c, cut, bad, verdict, stats>>
CanStep == IF Fwd THEN t + C.dt <= C.t1 ELSE t - C.dt >= C.t0
Observe ==
  /\ phase = "cut" /\ CanStep
  /\ cut' = Cuts(t, layer)
  /\ phase' = "decide"
  /\ UNCHANGED <<c, geo, t, layer, s, w, bad, verdict, stats>>
\* "s" is the set of thresholds that fit what was recorded so far
MayWarn(x)  == MayStronger(x, cut.strongest) \/ MayWider(x, cut.hi)
MustWarn(x) == MustStronger(x, cut.strongest) \/ MustWider(x, cut.lo)
Warned == {[x EXCEPT !.pf = cut.strongest] : x \in {y \in s : MayStronger(y, cut.strongest)}}
          \cup {[x EXCEPT !.pg = p] : x \in {y \in s : MayWider(y, cut.hi) /\ ~MustStronger(y, cut.strongest)}, p \in {cut.lo, cut.hi}}
Silent == {x \in s : ~MustWarn(x)}
Decide ==
  /\ phase = "decide"
  /\ LET warn == Warned # {} /\ Matches
         lost == ~warn /\ Silent = {}
     IN /\ s' = IF warn THEN Warned ELSE Silent
        /\ w' = IF warn THEN w + 1 ELSE w
        /\ bad' = bad \o (IF lost THEN Note("warning-missing", cut.strongest, cut.hi)
                          ELSE IF warn THEN JudgeField(w) ELSE <<>>)
        /\ stats' = [stats EXCEPT !.observed = @ + 1, !.cuts = @ + (IF cut.hi > 0 THEN 1 ELSE 0), !.warnings = @ + (IF warn THEN 1 ELSE 0),
                     !.unsure = @ + (IF \E x \in s : MayWarn(x) /\ ~MustWarn(x) THEN 1 ELSE 0),
                     !.wide = @ + (IF warn /\ \A x \in s : ~MayStronger(x, cut.strongest) THEN 1 ELSE 0),
                     !.quiet = @ + (IF cut.lo > 0 /\ ~warn THEN 1 ELSE 0)]
        \* after a missing warning the thresholds of the run are unknown
        /\ phase' = IF lost THEN "end" ELSE "cut"
  /\ layer' = IF layer = "upper" THEN "lower" ELSE "upper"
  /\ t' = IF layer = "upper" THEN t ELSE IF Fwd THEN t + C.dt ELSE t - C.dt
  /\ UNCHANGED <<c, geo, cut, verdict>>
Complete ==
  /\ phase = "cut" /\ ~CanStep
  /\ bad' = IF w = Len(C.warnings) + 1 THEN bad ELSE bad \o Note("warning-unexpected", w, C.warnings[w].t)
  /\ phase' = "end"
  /\ UNCHANGED <<c, geo, t, layer, cut, s, w, verdict, stats>>
Finish ==
  /\ phase = "end"
  /\ verdict' = Append(verdict, [run |-> C.id, ok |-> bad = <<>>, bad |-> SubSeq(bad, 1, Min(Len(bad), 4)), stats |-> stats])
  /\ stats' = None
  /\ c' = c + 1 /\ bad' = <<>> /\ cut' = <<>> /\ t' = 0
  /\ phase' = IF c' > Len(Cases) THEN "done" ELSE "start"
  /\ UNCHANGED <<geo, layer, s, w>>
Write ==
  /\ phase = "done" /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written"
  /\ UNCHANGED <<c, geo, t, layer, cut, s, w, bad, verdict, stats>>
Next == Start \/ Observe \/ Decide \/ Complete \/ Finish \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
