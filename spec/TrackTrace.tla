----------------------------- MODULE TrackTrace -----------------------------
(* Trace validation of complete tracking runs.                               *)
(*                                                                           *)
(* Each line of the trace file is one run of the real program: its forcing,  *)
(* grid, region and schedule, and the output files it wrote ("outs").  The   *)
(* specification advances the model clock in steps of dt (action Advance,    *)
(* silent), and each time an output is due it consumes the next recorded     *)
(* output (action Emit), judging it clause by clause.  A run is accepted if  *)
(* no clause in its "check" list fails.  After an output the model continues *)
(* from the recorded state, so one deviation is reported where it arises.    *)
EXTENDS Transport, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.VF_TRACE)

VARIABLES c,        \* index of the run being validated
          geo,      \* grid geometry of the run
          variant,  \* reading of the vertical closure, see Transport
          phase,    \* "start", "run", "emit", "done"
          t,        \* model clock (seconds after the first midnight)
          st,       \* tagged moisture [u, l]
          acc,      \* accumulated since the last output
          o,        \* next recorded output
          base,     \* tagged moisture recorded at the previous output
          bad,      \* failed clauses of this run
          verdict   \* failed clauses of all runs so far
vars == <<c, geo, variant, phase, t, st, acc, o, base, bad, verdict>>

C == Cases[c]
Fwd == C.dir = "forward"
Checks(x) == \E k \in 1..Len(C.check) : C.check[k] = x
Modelled == C.model

Zero == [i \in 1..C.m |-> [j \in 1..C.n |-> 0]]
ZeroAcc == [tag |-> Zero, rl |-> Zero, ru |-> Zero, loss |-> Zero, gain |-> Zero,
            p |-> Zero, e |-> Zero]

(* ------------- forcing ---------------------------------------------------- *)
\* linear interpolation between the records around time s
Lerp(name, s) ==
  LET k == s \div C.tin
      r == s % C.tin
      A == C.recs[k+1][name]
  IN IF r = 0 THEN A
     ELSE LET B == C.recs[k+2][name]
          IN [i \in 1..C.m |-> TLCEval([j \in 1..C.n |-> A[i][j] + Frac(B[i][j] - A[i][j], r, C.tin)])]
States(s) == [u |-> TLCEval(Lerp("su", s)), l |-> TLCEval(Lerp("sl", s))]
Fluxes(s) == [xu |-> TLCEval(Lerp("xu", s)), xl |-> TLCEval(Lerp("xl", s)),
              yu |-> TLCEval(Lerp("yu", s)), yl |-> TLCEval(Lerp("yl", s)),
              e  |-> TLCEval(Lerp("e", s)),  p  |-> TLCEval(Lerp("p", s))]

(* ------------- tagging ---------------------------------------------------- *)
\* a box includes its edges; its west may lie east of its east
InBox(b, y, x) == /\ b[2] <= y /\ y <= b[4]
                  /\ IF b[1] <= b[3] THEN b[1] <= x /\ x <= b[3] ELSE x >= b[1] \/ x <= b[3]
BoxWeights(b) == [i \in 1..C.m |-> [j \in 1..C.n |-> IF InBox(b, C.lat[i], C.lon[j]) THEN ONE ELSE 0]]
\* masks: sequence of [t, w]; a single mask is static
Nearest(s) ==
  CHOOSE k \in 1..Len(C.masks) :
    \A q \in 1..Len(C.masks) : Abs(C.masks[k].t - s) <= Abs(C.masks[q].t - s)
Weights(s) ==
  IF s < C.tag0 \/ s > C.tag1 THEN Zero
  ELSE IF C.box # <<>> THEN BoxWeights(C.box)
  ELSE IF Len(C.masks) = 1 THEN C.masks[1].w ELSE C.masks[Nearest(s)].w

(* ------------- judging ----------------------------------------------------- *)
Worst(M, O, tol) ==        \* cells where model and observation differ
  {<<i, j>> \in (1..C.m) \X (1..C.n) : ~Near(M[i][j], O[i][j], tol)}
AnyCell(S) == CHOOSE x \in S : \A y \in S : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Fail(clause, M, O, S) ==
  LET x == AnyCell(S) IN
  <<[run |-> C.id, variant |-> variant, out |-> o, t |-> t, clause |-> clause,
     row |-> x[1], col |-> x[2], model |-> M[x[1]][x[2]], observed |-> O[x[1]][x[2]],
     cells |-> Cardinality(S)]>>
Note(clause, m, b) ==
  <<[run |-> C.id, variant |-> variant, out |-> o, t |-> t, clause |-> clause,
     row |-> 0, col |-> 0, model |-> m, observed |-> b, cells |-> 0]>>
Cmp(clause, M, O) ==
  IF ~Checks(clause) THEN <<>>
  ELSE LET S == Worst(M, O, C.tol) IN IF S = {} THEN <<>> ELSE Fail(clause, M, O, S)

Fields(ob) == <<ob.u, ob.l, ob.tag, ob.rl, ob.ru, ob.loss, ob.gain>>
FiniteOut(ob) ==
  \A f \in 1..7 : \A i \in 1..C.m : \A j \in 1..C.n : Abs(Fields(ob)[f][i][j]) <= BIG

\* property clauses evaluated on the recorded output alone
Below(clause, A, B, tol) ==    \* A <= B cell by cell
  LET S == {<<i, j>> \in (1..C.m) \X (1..C.n) : A[i][j] > B[i][j] + tol}
  IN IF S = {} THEN <<>> ELSE Fail(clause, B, A, S)
JudgeBounds(ob) ==
  IF ~Checks("bounds") THEN <<>>
  ELSE LET S == States(t) IN
    Below("bounds:upper-full", ob.u, S.u, 8) \o Below("bounds:lower-full", ob.l, S.l, 8)
    \o Below("bounds:upper-negative", Zero, ob.u, 0) \o Below("bounds:lower-negative", Zero, ob.l, 0)
    \o Below("bounds:tagged-negative", Zero, ob.tag, 0) \o Below("bounds:losses-negative", Zero, ob.loss, 0)
    \o Below("bounds:gains-negative", Zero, ob.gain, 0)
    \o Below("bounds:tracked-negative", Zero, ob.rl, 0) \o Below("bounds:tracked-upper-negative", Zero, ob.ru, 0)
    \o Below("bounds:tracked-more-than-flux",
             [i \in 1..C.m |-> [j \in 1..C.n |-> ob.rl[i][j] + ob.ru[i][j]]],
             IF Fwd THEN acc.p ELSE acc.e, C.tol)
JudgeBalance(ob) ==
  IF ~Checks("balance") THEN <<>>
  ELSE LET \* storage change minus sources plus sinks, in eighths to stay within 32 bits
           R == [i \in 1..C.m |-> [j \in 1..C.n |->
                  ((ob.u[i][j] + ob.l[i][j]) - (base.u[i][j] + base.l[i][j]) - ob.tag[i][j]
                   + ob.rl[i][j] + ob.ru[i][j] + ob.loss[i][j] - ob.gain[i][j]) \div 8]]
           r == AreaSum(geo, R)
       IN IF Near(r, 0, C.baltol \div 8 + C.m * C.n) THEN <<>> ELSE Note("balance", 0, r)
JudgeEdges(ob) ==
  IF ~Checks("edges") THEN <<>>
  ELSE LET g == geo
           S == {<<i, j>> \in (1..C.m) \X (1..C.n) : Edge(g, i, j) /\ (ob.u[i][j] # 0 \/ ob.l[i][j] # 0)}
       IN IF S = {} THEN <<>> ELSE Fail("edges", Zero, ob.u, S)

\* within one step (outputs every step): inside the domain, moisture is written
\* off only where both layers are full, and made up only where one is empty
JudgeLimits(ob) ==
  IF ~Checks("limits") THEN <<>>
  ELSE LET S == States(t)
           In == {<<i, j>> \in (1..C.m) \X (1..C.n) : ~Edge(geo, i, j)}
           L == {x \in In : ob.loss[x[1]][x[2]] > C.tol /\
                   ~(ob.u[x[1]][x[2]] >= S.u[x[1]][x[2]] - C.tol /\ ob.l[x[1]][x[2]] >= S.l[x[1]][x[2]] - C.tol)}
           G == {x \in In : ob.gain[x[1]][x[2]] > C.tol /\ ob.u[x[1]][x[2]] > C.tol /\ ob.l[x[1]][x[2]] > C.tol}
       IN (IF L = {} THEN <<>> ELSE Fail("limits:lost-with-room-left", Zero, ob.loss, L))
          \o (IF G = {} THEN <<>> ELSE Fail("limits:gained-without-need", Zero, ob.gain, G))

\* with everything saturated the tagged moisture in the interior shows the
\* storage the model used for this time
JudgeFull(ob) ==
  IF ~Checks("full") THEN <<>>
  ELSE LET S == States(t)
           D(A, B) == {<<i, j>> \in (1..C.m) \X (1..C.n) : ~Edge(geo, i, j) /\ ~Near(A[i][j], B[i][j], C.tol)}
       IN (IF D(S.u, ob.u) = {} THEN <<>> ELSE Fail("full", S.u, ob.u, D(S.u, ob.u)))
          \o (IF D(S.l, ob.l) = {} THEN <<>> ELSE Fail("full", S.l, ob.l, D(S.l, ob.l)))

Judge(ob) ==
  IF ~FiniteOut(ob) THEN Note("finite", 0, 0)
  ELSE JudgeBounds(ob) \o JudgeBalance(ob) \o JudgeEdges(ob) \o JudgeFull(ob) \o JudgeLimits(ob)
       \o Cmp("tagged", acc.tag, ob.tag)
       \o (IF ~Modelled THEN <<>> ELSE
           Cmp("state", st.u, ob.u) \o Cmp("state", st.l, ob.l)
           \o Cmp("tracked", acc.rl, ob.rl) \o Cmp("tracked", acc.ru, ob.ru)
           \o Cmp("losses", acc.loss, ob.loss) \o Cmp("gains", acc.gain, ob.gain))

(* ------------- behaviour --------------------------------------------------- *)
Init ==
  /\ c = 1 /\ geo = <<>> /\ variant = "asbuilt" /\ phase = "start" /\ t = 0 /\ st = <<>> /\ acc = <<>>
  /\ o = 1 /\ base = <<>> /\ bad = <<>> /\ verdict = <<>>

Start ==
  /\ phase = "start" /\ c <= Len(Cases)
  /\ t' = (IF Fwd THEN C.t0 ELSE C.t1)
  /\ st' = IF C.init = <<>> THEN [u |-> Zero, l |-> Zero] ELSE C.init[1]
  /\ geo' = MkGrid(C.m, C.n, C.lat, C.dlat, C.dlon, C.per)
  /\ base' = st'
  /\ acc' = ZeroAcc
  /\ o' = 1
  /\ phase' = "run"
  /\ UNCHANGED <<c, variant, bad, verdict>>

CanStep == IF Fwd THEN t + C.dt <= C.t1 ELSE t - C.dt >= C.t0

AddF(A, B) == TLCEval([i \in 1..C.m |-> TLCEval([j \in 1..C.n |-> A[i][j] + B[i][j]])])

Advance ==
  /\ phase = "run" /\ CanStep
  /\ LET early == IF Fwd THEN t ELSE t - C.dt
         F  == Fluxes(early + C.dt \div 2)
         w  == Weights(t)
         tg == TLCEval([i \in 1..C.m |-> TLCEval([j \in 1..C.n |->
                  Mul(w[i][j], IF Fwd THEN F.e[i][j] ELSE F.p[i][j])])])
         r  == Step(geo, C.dir, C.kvf, States(early), States(early + C.dt), F, w, st,
                    variant = "documented")
     IN /\ st' = IF Modelled THEN [u |-> r.u, l |-> r.l] ELSE st
        /\ acc' = [tag |-> AddF(acc.tag, tg),
                   rl |-> IF Modelled THEN AddF(acc.rl, r.rl) ELSE acc.rl,
                   ru |-> IF Modelled THEN AddF(acc.ru, r.ru) ELSE acc.ru,
                   loss |-> IF Modelled THEN AddF(acc.loss, r.loss) ELSE acc.loss,
                   gain |-> IF Modelled THEN AddF(acc.gain, r.gain) ELSE acc.gain,
                   p |-> AddF(acc.p, F.p), e |-> AddF(acc.e, F.e)]
  /\ t' = IF Fwd THEN t + C.dt ELSE t - C.dt
  /\ phase' = IF \/ t' % C.outf = 0
                 \/ (IF Fwd THEN t' + C.dt > C.t1 ELSE t' - C.dt < C.t0)
              THEN "emit" ELSE "run"
  /\ UNCHANGED <<c, geo, variant, o, base, bad, verdict>>

Emit ==
  /\ phase = "emit" /\ o <= Len(C.outs) /\ C.outs[o].t = t
  /\ bad' = bad \o Judge(C.outs[o])
  /\ phase' = IF FiniteOut(C.outs[o]) THEN "run" ELSE "end"
  /\ st' = [u |-> C.outs[o].u, l |-> C.outs[o].l]
  /\ acc' = ZeroAcc /\ o' = o + 1 /\ base' = st'
  /\ UNCHANGED <<c, geo, variant, t, verdict>>

\* the output that is due was not written (or another one was)
Missing ==
  /\ phase = "emit" /\ ~(o <= Len(C.outs) /\ C.outs[o].t = t)
  /\ bad' = bad \o Note("output-missing", t, IF o <= Len(C.outs) THEN C.outs[o].t ELSE -1)
  /\ phase' = "end"
  /\ UNCHANGED <<c, geo, variant, t, st, acc, o, base, verdict>>

Complete ==
  /\ phase = "run" /\ ~CanStep
  /\ bad' = IF o = Len(C.outs) + 1 THEN bad ELSE bad \o Note("output-unexpected", -1, C.outs[o].t)
  /\ phase' = "end"
  /\ UNCHANGED <<c, geo, variant, t, st, acc, o, base, verdict>>

Summary == [run |-> C.id, variant |-> variant, ok |-> bad = <<>>,
            bad |-> SubSeq(bad, 1, Min(Len(bad), 4))]
\* a run that does not fit the as-built closure may fit the documented one
Finish ==
  /\ phase = "end"
  /\ verdict' = Append(verdict, Summary)
  /\ IF variant = "asbuilt" /\ Modelled /\ (bad # <<>> \/ C.both)
     THEN variant' = "documented" /\ c' = c
     ELSE variant' = "asbuilt" /\ c' = c + 1
  /\ bad' = <<>> /\ st' = <<>> /\ acc' = <<>> /\ t' = 0
  /\ phase' = IF c' > Len(Cases) THEN "done" ELSE "start"
  /\ UNCHANGED <<geo, o, base>>

Write ==
  /\ phase = "done"
  /\ JsonSerialize(IOEnv.VF_OUT, verdict)
  /\ phase' = "written"
  /\ UNCHANGED <<c, geo, variant, t, st, acc, o, base, bad, verdict>>

Next == Start \/ Advance \/ Emit \/ Missing \/ Complete \/ Finish \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
