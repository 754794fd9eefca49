------------------------------ MODULE SumTrace ------------------------------
(* Attribution adds up: what a run tracks is the sum of what runs track      *)
(* whose tagged moisture adds up to that of the run (parts of the region,    *)
(* shares of the weights, consecutive tagging periods), as long as no limit  *)
(* acts, i.e. no layer is overfull or overdrawn with tagged moisture.        *)
(* The walk goes along the outputs (one per step) and ends where one acted.  *)
EXTENDS Fx, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, a, phase, free, judged, bad, verdict
vars == <<c, a, phase, free, judged, bad, verdict>>
C == Cases[c]
W == C.whole[a]
P(k) == C.parts[k][a]
Cells == (1..C.m) \X (1..C.n)
Edge(i, j) == i = 1 \/ i = C.m \/ (~C.per /\ (j = 1 \/ j = C.n))
\* room: less than any layer ever holds
Free(r) == \A w \in Cells : /\ r.gain[w[1]][w[2]] = 0 /\ r.u[w[1]][w[2]] < C.room /\ r.l[w[1]][w[2]] < C.room
                             /\ (Edge(w[1], w[2]) \/ r.loss[w[1]][w[2]] = 0)
AllFree == Free(W) /\ \A k \in 1..Len(C.parts) : Free(P(k))
RECURSIVE SumUpTo(_, _, _, _)
SumUpTo(f, k, i, j) == IF k = 0 THEN 0 ELSE SumUpTo(f, k - 1, i, j) + C.times[k] * P(k)[f][i][j]
Note(clause, t, i, j, x, y) == <<[run |-> C.id, clause |-> clause, t |-> t, row |-> i, col |-> j, model |-> x, observed |-> y]>>
Cmp(f) ==
  LET D == {w \in Cells : ~Near(SumUpTo(f, Len(C.parts), w[1], w[2]), W[f][w[1]][w[2]], C.tol)}
  IN IF D = {} THEN <<>> ELSE LET w == CHOOSE w \in D : TRUE IN Note(f, W.t, w[1], w[2], SumUpTo(f, Len(C.parts), w[1], w[2]), W[f][w[1]][w[2]])
SameTimes == \A k \in 1..Len(C.parts) : Len(C.parts[k]) = Len(C.whole) /\ \A n \in 1..Len(C.whole) : C.parts[k][n].t = C.whole[n].t
Init == c = 1 /\ a = 1 /\ phase = "start" /\ free = TRUE /\ judged = 0 /\ bad = <<>> /\ verdict = <<>>
Start == /\ phase = "start" /\ c <= Len(Cases)
         /\ a' = 1 /\ free' = TRUE /\ judged' = 0
         /\ bad' = IF SameTimes THEN <<>> ELSE Note("outputs", 0, 0, 0, Len(C.whole), Len(C.parts[1]))
         /\ phase' = (IF SameTimes THEN "walk" ELSE "end") /\ UNCHANGED <<c, verdict>>
Walk == /\ phase = "walk" /\ a <= Len(C.whole) /\ AllFree = TRUE
        /\ bad' = bad \o Cmp("u") \o Cmp("l") \o Cmp("tag") \o Cmp("rl") \o Cmp("ru") \o Cmp("loss")
        /\ a' = a + 1 /\ judged' = judged + 1 /\ UNCHANGED <<c, phase, free, verdict>>
Limit == /\ phase = "walk" /\ a <= Len(C.whole) /\ AllFree = FALSE
         /\ free' = FALSE /\ phase' = "end" /\ UNCHANGED <<c, a, judged, bad, verdict>>
Last == phase = "walk" /\ a > Len(C.whole) /\ phase' = "end" /\ UNCHANGED <<c, a, free, judged, bad, verdict>>
Finish == /\ phase = "end"
          /\ verdict' = Append(verdict, [run |-> C.id, ok |-> bad = <<>>, free |-> free, judged |-> judged, bad |-> SubSeq(bad, 1, Min(Len(bad), 4))])
          /\ c' = c + 1 /\ phase' = (IF c' > Len(Cases) THEN "done" ELSE "start") /\ UNCHANGED <<a, free, judged, bad>>
Write == phase = "done" /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written" /\ UNCHANGED <<c, a, free, judged, bad, verdict>>
Next == Start \/ Walk \/ Limit \/ Last \/ Finish \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
