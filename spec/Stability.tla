----------------------------- MODULE Stability ------------------------------
(* When to warn that fluxes were cut.                                        *)
(*                                                                           *)
(* A cut is summarised by the strongest factor (fixed point, ONE = nothing   *)
(* was cut) and the share of the grid that was cut (percent, fixed point).   *)
(* "pf" and "pg" are the factor and share last warned about, each for its    *)
(* own reason.                                                               *)
EXTENDS Fx

Fresh == [pf |-> ONE, pg |-> 0]

\* thresholds scaled so that no product leaves 32 bits
Stronger(s, f) == f * 11 < s.pf * 10
Wider(s, pct)  == /\ pct > 5 * ONE
                  /\ pct * 10 > s.pg * 11
Warns(s, f, pct) == Stronger(s, f) \/ Wider(s, pct)
After(s, f, pct) ==
  IF Stronger(s, f) THEN [s EXCEPT !.pf = f]
  ELSE IF Wider(s, pct) THEN [s EXCEPT !.pg = pct]
  ELSE s

\* the same with a margin around each threshold, for measured factors
FMargin == 150                      \* of ONE
PMargin == 64
MayStronger(s, f)  == f * 11 < s.pf * 10 + 10 * FMargin
MustStronger(s, f) == f * 11 < s.pf * 10 - 10 * FMargin
MayWider(s, pct)   == pct > 5 * ONE - PMargin /\ pct * 10 > s.pg * 11 - 10 * PMargin
MustWider(s, pct)  == pct > 5 * ONE + PMargin /\ pct * 10 > s.pg * 11 + 10 * PMargin
=============================================================================
