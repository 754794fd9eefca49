----------------------------- MODULE Preprocess -----------------------------
(* What preprocessing makes of the raw data of one time in one column.       *)
(* Units, all in the fixed-point format of Fx: pressure 10^4 Pa, humidity    *)
(* 0.01 kg/kg, wind 32 m/s, moisture kg m-2, moisture flux 32 kg m-1 s-1,    *)
(* accumulated surface fluxes mm, surface fluxes mm/h.                       *)
EXTENDS Fx, ModelLevels, SequencesExt
KG == 2673125                      \* 10^4 * 0.01 / g, g = 9.80665

Water(q, d) == Mul(Mul(q, KG), d)
\* truncated to whole Pa (see known_findings.json); p < 11.5
Whole(p) == (((p * 625 + 400) \div 16384) * 16384) \div 625

(* ---- humidity at the surface from the dew point (in kelvin) ---- *)
ExpFrac(x) ==                      \* 0 <= x < 1
  LET h(k, y) == ONE + Mul(x, y) \div k
  IN  h(1, h(2, h(3, h(4, h(5, h(6, h(7, h(8, ONE))))))))
\* 611.21 Pa * e^n, n = -5..3, with four more bits
SvpTable == <<1727, 4695, 12763, 34695, 94310, 256360, 696859, 1894259, 5149129>>
\* Teten: 611.21 Pa * exp(17.502 (d - 273.15) / (d - 32.19)); d in kelvin, 250 to 305
Svp(d) == LET x == Div(Mul(d - 71604634, 4588044), d - 8438415)
              n == x \div ONE
          IN  (Mul(SvpTable[n + 6], ExpFrac(x - n * ONE)) + 8) \div 16
DewHumidity(d, ps) ==              \* in 0.01 kg/kg
  LET e == Svp(d) IN Div(Mul(16304854, e), ps - Mul(99095, e))

(* ---- layers of a column on pressure levels ---- *)
\* L: sequence of [p, q, u, v] at the levels; S: at the surface
ByPressure(s) == SortSeq(s, LAMBDA x, y: x.p < y.p)
Extended(L, S) ==
  LET top == CHOOSE k \in 1..Len(L) : \A j \in 1..Len(L) : L[k].p <= L[j].p
  IN  ByPressure(<<[p |-> 0, q |-> 0, u |-> L[top].u, v |-> L[top].v], S>> \o L)
Interp(E, p) ==
  LET k == CHOOSE i \in 1..(Len(E) - 1) : E[i].p < p /\ p <= E[i+1].p
      w == Div(p - E[k].p, E[k+1].p - E[k].p)
      f(x, y) == x + Mul(y - x, w)
  IN  [p |-> p, q |-> f(E[k].q, E[k+1].q), u |-> f(E[k].u, E[k+1].u), v |-> f(E[k].v, E[k+1].v)]
PressureLayers(L, S, pb, whole) == \* with the boundary level put in
  LET cut(x) == IF whole THEN [x EXCEPT !.p = Whole(x.p)] ELSE x
      E == Extended(L, cut(S))
      F == ByPressure(<<cut(Interp(E, pb))>> \o E)
  IN  [k \in 1..(Len(F) - 1) |->
        LET a == F[k]  b == F[k+1]  mid == (a.p + b.p) \div 2 IN
        [w |-> IF mid < S.p THEN Water((a.q + b.q) \div 2, b.p - a.p) ELSE 0,
         u |-> (a.u + b.u) \div 2, v |-> (a.v + b.v) \div 2, lower |-> ~(mid < pb)]]

(* ---- layers of a column on model levels ---- *)
\* N: numbers of the levels used, ascending
EdgeP(N, k, ps) ==                 \* edge below the k-th of the levels used (0: top):
  LET n == Len(N)                  \* midway between the middles of the two levels
      four(H) == IF k = 0 THEN 4 * H[1] ELSE IF k = n THEN 4 * H[138]
                 ELSE H[N[k]] + H[N[k] + 1] + H[N[k+1]] + H[N[k+1] + 1]
  IN  ((four(HalfA) * 256) \div 625) + Mul(four(HalfB) \div 4, ps) \div 256
ModelLayers(N, L, ps, boundary) ==
  LET e == [k \in 0..Len(N) |-> EdgeP(N, k, ps)] IN
  [k \in 1..Len(N) |-> [w |-> Water(L[k].q, e[k] - e[k-1]), u |-> L[k].u, v |-> L[k].v, lower |-> N[k] > boundary]]

(* ---- the two layers ---- *)
Total(C) == SumSeq([k \in 1..Len(C) |-> C[k].w])
Scaled(C, tcw) == LET f == Div(tcw, Total(C)) IN [k \in 1..Len(C) |-> [C[k] EXCEPT !.w = Mul(C[k].w, f)]]
Part(C, low) == SelectSeq(C, LAMBDA x: x.lower = low)
Sums(C) == [s |-> Total(C), x |-> SumSeq([k \in 1..Len(C) |-> Mul(C[k].u, C[k].w)]),
            y |-> SumSeq([k \in 1..Len(C) |-> Mul(C[k].v, C[k].w)])]
TwoLayers(C) == [up |-> Sums(Part(C, FALSE)), low |-> Sums(Part(C, TRUE))]

(* ---- surface fluxes ---- *)
Rate(x, minutes) == Frac(x, 60, minutes)
Accumulated(tp, e, minutes) ==     \* e: evaporation is negative
  [p |-> Rate(Max(tp, 0) + Max(e, 0), minutes), e |-> Rate(Max(-e, 0), minutes)]
LatentRate(h) == Frac(h, 9, 6125)  \* W m-2 to mm/h with 2.45e6 J/kg
FromFluxes(pr, hf) ==              \* two three-hourly means each
  LET p == (pr[1] + pr[2]) \div 2
      e == LatentRate((hf[1] + hf[2]) \div 2)
  IN  [p |-> Max(p, 0) - Min(e, 0), e |-> Max(e, 0)]
=============================================================================
