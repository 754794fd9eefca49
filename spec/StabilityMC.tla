---------------------------- MODULE StabilityMC -----------------------------
(* Every history of cuts: the policy is silent without cuts, never misses a  *)
(* record, and cannot warn over and over.                                    *)
EXTENDS Stability, FiniteSets

CONSTANTS Factors,   \* in hundredths
          Shares,    \* in percent
          Depth
VARIABLES s, warned, n, worst, widest
vars == <<s, warned, n, worst, widest>>

F(k) == (ONE * k) \div 100
Init == s = Fresh /\ warned = <<>> /\ n = 0 /\ worst = ONE /\ widest = 0
Observe(k, p) ==
  /\ n < Depth
  /\ (k = 100) <=> (p = 0)           \* a factor below one means some cell was cut
  /\ n' = n + 1
  /\ s' = After(s, F(k), p * ONE)
  /\ warned' = IF Warns(s, F(k), p * ONE) THEN Append(warned, <<k, p>>) ELSE warned
  /\ worst' = Min(worst, F(k)) /\ widest' = Max(widest, p)
Next == \E k \in Factors, p \in Shares : Observe(k, p)
Spec == Init /\ [][Next]_vars

\* whatever was cut so far has been announced up to a tenth, and small cuts up to 5%
Announced ==
  /\ ~ (worst * 11 < s.pf * 10)
  /\ worst <= s.pf
NothingNeedless == \A q \in 1..Len(warned) : warned[q][2] > 0
\* each warning moves one of the two thresholds by a tenth: their number is bounded
\* by the number of tenths between one and the smallest factor, and 5% and 100%
Few == LET fs == {q \in 1..Len(warned) : TRUE} IN Cardinality(fs) <= Cardinality(Factors) + Cardinality(Shares)
Shrinks == [][(s'.pf # s.pf => s'.pf * 11 < s.pf * 10) /\ (s'.pg # s.pg => s'.pg * 10 > s.pg * 11)]_vars
=============================================================================
