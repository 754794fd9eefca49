----------------------------- MODULE FiguresMC ------------------------------
(* A run that writes its outputs one after the other, with another run in    *)
(* the same folder, and a figure drawn at any moment: it is refused until    *)
(* all outputs are there, and then counts every step exactly once.           *)
EXTENDS Figures, FiniteSets
CONSTANT MaxT
VARIABLES r, t, steps, held, figure
vars == <<r, t, steps, held, figure>>
\* held: time of an output -> the steps it accounts for
Init == /\ r \in [dir : {"forward", "backward"}, t0 : 0..1, t1 : 0..MaxT, dt : 1..3, outf : 1..4]
        /\ t = FirstTime(r) /\ steps = {} /\ figure = {}
        /\ held \in UNION {[S -> {{}}] : S \in SUBSET {0, 2, MaxT}}       \* leftovers account for nothing of this run
Step == /\ CanStep(r, t)
        /\ t' = After(r, t)
        /\ LET s == steps \cup {t'} IN
           IF Due(r, t') THEN /\ held' = [x \in DOMAIN held \cup {t'} |-> IF x = t' THEN s ELSE held[x]] /\ steps' = {}
           ELSE UNCHANGED held /\ steps' = s
        /\ UNCHANGED <<r, figure>>
RECURSIVE Together(_)
Together(ts) == IF ts = <<>> THEN <<>> ELSE <<held[Head(ts)]>> \o Together(Tail(ts))
Draw == /\ ~CanStep(r, t) /\ figure = {} /\ Complete(r, DOMAIN held)
        /\ figure' = {Together(AllTimes(r))}
        /\ UNCHANGED <<r, t, steps, held>>
Next == Step \/ Draw
Spec == Init /\ [][Next]_vars
RECURSIVE Run(_)
Run(x) == IF CanStep(r, x) THEN {After(r, x)} \cup Run(After(r, x)) ELSE {}
RECURSIVE Count(_, _)
Count(f, x) == IF f = <<>> THEN 0 ELSE (IF x \in Head(f) THEN 1 ELSE 0) + Count(Tail(f), x)
EachStepOnce == \A f \in figure : \A x \in Run(FirstTime(r)) : Count(f, x) = 1
NothingElse == \A f \in figure : \A k \in 1..Len(f) : f[k] \subseteq Run(FirstTime(r))
Increasing == LET a == AllTimes(r) IN \A k \in 1..Len(a) - 1 : IF r.dir = "forward" THEN a[k] < a[k+1] ELSE a[k] > a[k+1]
=============================================================================
