---------------------------- MODULE FigureTrace -----------------------------
(* Figures drawn by the program, against the stored outputs and forcing.     *)
(* Each line: a run (schedule, region, forcing), the outputs in its folder   *)
(* and a sequence of requests for figures with what came out of each.        *)
EXTENDS Figures, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, k, bad, verdict, stats
vars == <<c, k, bad, verdict, stats>>
C == Cases[c]
D == C.draws[k]
Cells == (1..C.m) \X (1..C.n)
None == [drawn |-> 0, refused |-> 0, fields |-> 0]

InBox(b, y, x) == /\ b[2] <= y /\ y <= b[4]
                  /\ IF b[1] <= b[3] THEN b[1] <= x /\ x <= b[3] ELSE x >= b[1] \/ x <= b[3]
Weight(i, j) == IF C.box # <<>> THEN (IF InBox(C.box, C.lat[i], C.lon[j]) THEN ONE ELSE 0) ELSE C.w[i][j]

HeldOuts == {C.outs[q].t : q \in 1..Len(C.outs)} \ {D.missing[q] : q \in 1..Len(D.missing)}
OutAt(t) == C.outs[CHOOSE q \in 1..Len(C.outs) : C.outs[q].t = t]
RECURSIVE SumOut(_, _, _), SumIn(_, _, _)
SumOut(ts, i, j) == IF ts = <<>> THEN 0 ELSE OutAt(Head(ts)).tr[i][j] + SumOut(Tail(ts), i, j)
SumIn(ks, i, j) == IF ks = <<>> THEN 0 ELSE Mul(PerInput(C, C.recs[Head(ks)][i][j]), Weight(i, j)) + SumIn(Tail(ks), i, j)

Field(x) == IF x = "tracked" THEN LET ts == AllTimes(C) IN [i \in 1..C.m |-> TLCEval([j \in 1..C.n |-> SumOut(ts, i, j)])]
            ELSE LET ks == Tagging(C, 1, Len(C.recs)) IN [i \in 1..C.m |-> TLCEval([j \in 1..C.n |-> SumIn(ks, i, j)])]
HeldDays == {C.days[q] : q \in 1..Len(C.days)} \ {D.nodays[q] : q \in 1..Len(D.nodays)}
Possible(x) == IF x = "tracked" THEN Complete(C, HeldOuts) ELSE TaggingDays(C) \subseteq HeldDays
Should == \A q \in 1..Len(Shows(D.what)) : Possible(Shows(D.what)[q])

Note(clause, i, j, m, o) == <<[run |-> C.id, draw |-> k, what |-> D.what, clause |-> clause, row |-> i, col |-> j, model |-> m, observed |-> o]>>
JudgeField(x) ==
  IF \A q \in 1..Len(D.shown) : D.shown[q].of # x THEN Note("no-field-" \o x, 0, 0, 1, 0)
  ELSE LET ob == D.shown[CHOOSE q \in 1..Len(D.shown) : D.shown[q].of = x]
           F == Field(x)
           W == {y \in Cells : ~Near(F[y[1]][y[2]], ob.v[y[1]][y[2]], C.tol + Abs(F[y[1]][y[2]]) \div 100000)}
       IN IF ob.lat # C.lat \/ ob.lon # C.lon THEN Note("grid-of-" \o x, 0, 0, 0, 0)
          ELSE IF W = {} THEN <<>>
          ELSE LET y == CHOOSE y \in W : \A z \in W : y[1] < z[1] \/ (y[1] = z[1] /\ y[2] <= z[2])
               IN Note(x, y[1], y[2], F[y[1]][y[2]], ob.v[y[1]][y[2]])
RECURSIVE JudgeAll(_)
JudgeAll(s) == IF s = <<>> THEN <<>> ELSE JudgeField(Head(s)) \o JudgeAll(Tail(s))

Judge == IF ~Should
         THEN (IF D.ok \/ D.files # <<>> THEN Note("drawn-without-data", 0, 0, 0, 1) ELSE <<>>)
         ELSE IF ~D.ok THEN Note("failed", 0, 0, 1, 0)
         ELSE (IF D.files # <<FileName(D.what)>> THEN Note("file", 0, 0, 1, Len(D.files)) ELSE <<>>)
              \o (IF Len(D.shown) # Len(Shows(D.what)) THEN Note("fields", 0, 0, Len(Shows(D.what)), Len(D.shown)) ELSE <<>>)
              \o JudgeAll(Shows(D.what))

Init == c = 1 /\ k = 1 /\ bad = <<>> /\ verdict = <<>> /\ stats = None
Draw ==
  /\ c <= Len(Cases) /\ k <= Len(C.draws)
  /\ bad' = bad \o Judge
  /\ stats' = [stats EXCEPT !.drawn = @ + (IF Should THEN 1 ELSE 0), !.refused = @ + (IF Should THEN 0 ELSE 1), !.fields = @ + Len(D.shown)]
  /\ k' = k + 1 /\ UNCHANGED <<c, verdict>>
Finish ==
  /\ c <= Len(Cases) /\ k > Len(C.draws)
  /\ verdict' = Append(verdict, [run |-> C.id, ok |-> bad = <<>>, bad |-> SubSeq(bad, 1, Min(Len(bad), 4)), stats |-> stats])
  /\ c' = c + 1 /\ k' = 1 /\ bad' = <<>> /\ stats' = None
Write ==
  /\ c = Len(Cases) + 1 /\ JsonSerialize(IOEnv.VF_OUT, verdict)
  /\ c' = c + 1 /\ UNCHANGED <<k, bad, verdict, stats>>
Next == Draw \/ Finish \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
