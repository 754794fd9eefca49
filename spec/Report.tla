------------------------------- MODULE Report --------------------------------
(* The progress report: running totals over the outputs of a run.            *)
(*                                                                           *)
(* Fields are area weighted (cosine of latitude) and summed in eighths, so   *)
(* that totals up to 8192 kg m-2 fit.  Percentages are fixed point.          *)
EXTENDS Transport

Weight(lat) == CosMDeg(lat)
\* a row sum is exact, its eighth is weighted
RECURSIVE WeighTo(_, _, _)
WeighTo(lat, rows, i) == IF i = 0 THEN 0 ELSE Mul(rows[i] \div 8, Weight(lat[i])) + WeighTo(lat, rows, i-1)
Total(g, lat, A) == WeighTo(lat, [i \in 1..g.m |-> SumSeqTo(A[i], g.n)], g.m)
RECURSIVE InnerRow(_, _, _, _)
InnerRow(g, A, i, j) == IF j = 0 THEN 0 ELSE (IF Edge(g, i, j) THEN 0 ELSE A[i][j]) + InnerRow(g, A, i, j-1)
Inner(g, lat, A) == WeighTo(lat, [i \in 1..g.m |-> InnerRow(g, A, i, g.n)], g.m)

Nothing == [tagged |-> 0, tracked |-> 0, lost |-> 0, boundary |-> 0, gained |-> 0]

\* accumulate one output (fields tag, rl, ru, loss, gain)
Account(g, lat, sums, ob) ==
  LET all == Total(g, lat, ob.loss)
      inner == Inner(g, lat, ob.loss)
  IN [tagged   |-> sums.tagged + Total(g, lat, ob.tag),
      tracked  |-> sums.tracked + Total(g, lat, ob.rl) + Total(g, lat, ob.ru),
      lost     |-> sums.lost + inner,
      boundary |-> sums.boundary + (all - inner),
      gained   |-> sums.gained + Total(g, lat, ob.gain)]
InAir(g, lat, ob) == Total(g, lat, ob.u) + Total(g, lat, ob.l)

HUNDRED == 100 * ONE
Percent(x, of) == Mul(HUNDRED, Div(x, of))
Closure(sums, air) == sums.tracked + air + sums.lost + sums.boundary - sums.gained
=============================================================================
