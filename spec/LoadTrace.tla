----------------------------- MODULE LoadTrace -----------------------------
(* What the tracking gets when it asks for forcing.                          *)
(*                                                                           *)
(* Each folder holds fixed records at multiples of tin.  A history is a sequence *)
(* of requests (folder, time, subset, box) and of scribbles: the model overwrites    *)
(* what it was handed.  Files, and hence all later answers, are unaffected.  *)
EXTENDS Fx, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, k, bad, verdict, phase
vars == <<c, k, bad, verdict, phase>>
C == Cases[c]
E == C.events[k]
Names(subset) == IF subset = "states" THEN <<"su", "sl">> ELSE <<"xu", "xl", "yu", "yl", "e", "p">>
Cell(name, s, i, j) ==
  LET q == s \div C.tin
      r == s % C.tin
      W == C.worlds[E.folder]
      x == W[q+1][name][i][j]
  IN IF r = 0 THEN x ELSE x + Frac(W[q+2][name][i][j] - x, r, C.tin)
Tol == 6
Wrong == {<<f, i, j>> \in (1..Len(Names(E.subset))) \X (1..Len(E.rows)) \X (1..Len(E.cols)) :
            ~Near(Cell(Names(E.subset)[f], E.t, E.rows[i], E.cols[j]), E.values[f][i][j], Tol)}
Init == c = 1 /\ k = 1 /\ bad = <<>> /\ verdict = <<>> /\ phase = "run"
Load == /\ phase = "run" /\ k <= Len(C.events) /\ E.op = "load"
        /\ bad' = IF bad # <<>> \/ Wrong = {} THEN bad
                  ELSE LET w == CHOOSE w \in Wrong : TRUE IN
                       <<[event |-> k, t |-> E.t, field |-> Names(E.subset)[w[1]], row |-> E.rows[w[2]], col |-> E.cols[w[3]],
                          model |-> Cell(Names(E.subset)[w[1]], E.t, E.rows[w[2]], E.cols[w[3]]), observed |-> E.values[w[1]][w[2]][w[3]]]>>
        /\ k' = k + 1 /\ UNCHANGED <<c, verdict, phase>>
Scribble == /\ phase = "run" /\ k <= Len(C.events) /\ E.op = "scribble"
            /\ k' = k + 1 /\ UNCHANGED <<c, bad, verdict, phase>>
Finish == /\ phase = "run" /\ k > Len(C.events)
          /\ verdict' = Append(verdict, [run |-> C.id, ok |-> bad = <<>>, bad |-> bad])
          /\ c' = c + 1 /\ k' = 1 /\ bad' = <<>>
          /\ phase' = IF c' > Len(Cases) THEN "done" ELSE "run"
Write == phase = "done" /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written" /\ UNCHANGED <<c, k, bad, verdict>>
Next == Load \/ Scribble \/ Finish \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
