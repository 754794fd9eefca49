------------------------------ MODULE RelTrace ------------------------------
(* Relations between two runs of the program that share a schedule.          *)
(*                                                                           *)
(* Run A is the reference, run B is related to it by the way the two were    *)
(* set up:                                                                   *)
(*   group   B writes less often; what A wrote in between adds up            *)
(*   from    B continues A from that time on (restart), -1: from the start   *)
(*   faults  times of forcing records that B cannot read, and blocked: times *)
(*           of outputs that B cannot write; B stops where it meets one      *)
(*   cuts    times at which B was stopped, to be continued from what it wrote *)
(*   mayfail B depends on something unreliable                                *)
(*   shift   B sees the world rotated eastward by that many columns          *)
(*   flipx, flipy  B sees it with east and west, north and south exchanged    *)
(*   num, den      B sees all amounts of water times num over den             *)
(*   exact   both are the same computation: stored bits agree                *)
(* The machine walks along A's outputs, accumulates, and whenever an output  *)
(* of B is due compares it with what A has accumulated.                      *)
EXTENDS Fx, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, a, b, acc, dead, phase, bad, verdict
vars == <<c, a, b, acc, dead, phase, bad, verdict>>

C == Cases[c]
Fwd == C.dir = "forward"
Zero == [i \in 1..C.m |-> [j \in 1..C.n |-> 0]]
ZeroAcc == [tag |-> Zero, rl |-> Zero, ru |-> Zero, loss |-> Zero, gain |-> Zero]
Plus(A, B) == TLCEval([i \in 1..C.m |-> TLCEval([j \in 1..C.n |-> A[i][j] + B[i][j]])])

Before(s, t) == IF Fwd THEN s < t ELSE s > t     \* earlier in the run
\* the schedule of B
LastStep(t) == IF Fwd THEN t + C.dt > C.t1 ELSE t - C.dt < C.t0
Due(t) == t % C.outf = 0 \/ LastStep(t) \/ \E k \in 1..Len(C.cuts) : C.cuts[k] = t

\* the forcing records needed at time s, and in the step that ends with output t
RecsAt(s) == {(s \div C.tin) * C.tin, ((s + C.tin - 1) \div C.tin) * C.tin}
Early(t) == IF Fwd THEN t - C.dt ELSE t
Needs(t) == RecsAt(Early(t)) \cup RecsAt(Early(t) + C.dt) \cup RecsAt(Early(t) + C.dt \div 2)
Unreadable(t) == \E k \in 1..Len(C.faults) : C.faults[k] \in Needs(t)
Blocked(t) == \E k \in 1..Len(C.blocked) : C.blocked[k] = t

\* column j of A's world is column Col(j) of B's
Col(j) == LET k == ((j - 1 + C.shift) % C.n) + 1 IN IF C.flipx THEN C.n + 1 - k ELSE k
Row(i) == IF C.flipy THEN C.m + 1 - i ELSE i

Note(clause, t, i, j, x, y) ==
  <<[run |-> C.id, clause |-> clause, t |-> t, row |-> i, col |-> j, model |-> x, observed |-> y]>>
Cmp(clause, t, X, Y, tol) ==
  LET D == {<<i, j>> \in (1..C.m) \X (1..C.n) : ~Near(C.num * X[i][j], C.den * Y[Row(i)][Col(j)], C.den * tol)}
  IN IF D = {} THEN <<>>
     ELSE LET w == CHOOSE w \in D : \A v \in D : w[1] < v[1] \/ (w[1] = v[1] /\ w[2] <= v[2])
          IN Note(clause, t, w[1], w[2], X[w[1]][w[2]], Y[Row(w[1])][Col(w[2])])
Judge(x, r, y) ==      \* x: A's output (state), r: accumulated, y: B's output
     Cmp("state", y.t, x.u, y.u, C.tol) \o Cmp("state", y.t, x.l, y.l, C.tol)
  \o Cmp("tagged", y.t, r.tag, y.tag, C.tol)
  \o Cmp("tracked", y.t, r.rl, y.rl, C.tol) \o Cmp("tracked", y.t, r.ru, y.ru, C.tol)
  \o Cmp("losses", y.t, r.loss, y.loss, C.tol) \o Cmp("gains", y.t, r.gain, y.gain, C.tol)
  \o (IF C.exact /\ x.dig # y.dig THEN Note("bits", y.t, 0, 0, x.dig, y.dig) ELSE <<>>)

Init == c = 1 /\ a = 1 /\ b = 1 /\ acc = <<>> /\ dead = FALSE /\ phase = "start" /\ bad = <<>> /\ verdict = <<>>

Start == /\ phase = "start" /\ c <= Len(Cases)
         /\ a' = 1 /\ b' = 1 /\ acc' = ZeroAcc /\ dead' = FALSE /\ bad' = <<>> /\ phase' = "walk"
         /\ UNCHANGED <<c, verdict>>

\* A's outputs up to the restart belong to the first part
Skip == /\ phase = "walk" /\ a <= Len(C.A) /\ C.from >= 0
        /\ ~Before(C.from, C.A[a].t)
        /\ a' = a + 1 /\ UNCHANGED <<c, b, acc, dead, phase, bad, verdict>>
Take == /\ phase = "walk" /\ a <= Len(C.A)
        /\ C.from >= 0 => Before(C.from, C.A[a].t)
        /\ acc' = [tag |-> Plus(acc.tag, C.A[a].tag), rl |-> Plus(acc.rl, C.A[a].rl), ru |-> Plus(acc.ru, C.A[a].ru),
                   loss |-> Plus(acc.loss, C.A[a].loss), gain |-> Plus(acc.gain, C.A[a].gain)]
        /\ dead' = (dead \/ Unreadable(C.A[a].t) \/ (Blocked(C.A[a].t) /\ (C.group => Due(C.A[a].t))))
        /\ phase' = IF dead' THEN "stop" ELSE IF C.group /\ ~Due(C.A[a].t) THEN "walk" ELSE "match"
        /\ a' = a + 1 /\ UNCHANGED <<c, b, bad, verdict>>
Match == /\ phase = "match" /\ b <= Len(C.B) /\ C.B[b].t = C.A[a-1].t
         /\ bad' = bad \o Judge(C.A[a-1], acc, C.B[b])
         /\ acc' = ZeroAcc /\ b' = b + 1 /\ phase' = "walk"
         /\ UNCHANGED <<c, a, dead, verdict>>
\* B may fail anywhere, if it says so
GiveUp == /\ phase = "match" /\ C.mayfail /\ b > Len(C.B) /\ C.code # 0
          /\ phase' = "end" /\ UNCHANGED <<c, a, b, acc, dead, bad, verdict>>
\* B did not write what was due
Absent == /\ phase = "match" /\ ~(b <= Len(C.B) /\ C.B[b].t = C.A[a-1].t)
          /\ ~(C.mayfail /\ b > Len(C.B) /\ C.code # 0)
          /\ bad' = bad \o Note("output-missing", C.A[a-1].t, 0, 0, C.A[a-1].t, IF b <= Len(C.B) THEN C.B[b].t ELSE -1)
          /\ phase' = "end" /\ UNCHANGED <<c, a, b, acc, dead, verdict>>
\* B cannot get any further
Stop == /\ phase = "stop"
        /\ bad' = bad \o (IF b > Len(C.B) THEN <<>> ELSE Note("output-after-fault", C.B[b].t, 0, 0, -1, C.B[b].t))
                     \o (IF C.code # 0 THEN <<>> ELSE Note("fault-ignored", C.A[a-1].t, 0, 0, 1, 0))
        /\ phase' = "end" /\ UNCHANGED <<c, a, b, acc, dead, verdict>>
Exhaust == /\ phase = "walk" /\ a > Len(C.A)
           /\ bad' = bad \o (IF b > Len(C.B) THEN <<>> ELSE Note("output-unexpected", C.B[b].t, 0, 0, -1, C.B[b].t))
                        \o (IF C.code = 0 THEN <<>> ELSE Note("failed", -1, 0, 0, 0, C.code))
           /\ phase' = "end" /\ UNCHANGED <<c, a, b, acc, dead, verdict>>
Finish == /\ phase = "end"
          /\ verdict' = Append(verdict, [run |-> C.id, ok |-> bad = <<>>, matched |-> b - 1, stopped |-> dead, bad |-> SubSeq(bad, 1, Min(Len(bad), 4))])
          /\ c' = c + 1 /\ acc' = <<>>
          /\ phase' = IF c' > Len(Cases) THEN "done" ELSE "start"
          /\ UNCHANGED <<a, b, dead, bad>>
Write == /\ phase = "done" /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written"
         /\ UNCHANGED <<c, a, b, acc, dead, bad, verdict>>
Next == Start \/ Skip \/ Take \/ Match \/ GiveUp \/ Absent \/ Stop \/ Exhaust \/ Finish \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
