----------------------------- MODULE TransportMC -----------------------------
(* Exhaustive exploration of Transport!Step on a small grid: every           *)
(* combination of a few flux, storage, surface-flux and region values, in    *)
(* histories of MaxStep steps.  The broad guarantees are invariants.         *)
EXTENDS Transport

CONSTANTS Dir,        \* "forward" or "backward"
          Per,        \* periodic in longitude?
          N,          \* columns (3 rows)
          FluxVals,   \* horizontal fluxes (kg m-2 * degree per step), integers
          StorVals,   \* <<s0.u, s0.l, s1.u, s1.l>>, integers
          SurfVals,   \* <<rain, evaporation>>, integers
          Weights,    \* region weights in quarters
          Kvf,
          Starts,     \* initial tagged fraction in quarters
          MaxStep

VARIABLES step, st, pend, last
vars == <<step, st, pend, last>>

M == 3
g == MkGrid(M, N, <<41000, 40000, 39000>>, 1000, 1500, Per)

Inputs == [xw : FluxVals, xe : FluxVals, yn : FluxVals, ys : FluxVals, ls : {1, -1},
           s : StorVals, pe : SurfVals, w : Weights]

\* horizontally varying storage, so that neighbours differ
Stor(v) == Field(g, LAMBDA i, j: v*ONE + ((i + 2*j) % 3) * (ONE \div 4))
S0(a) == [u |-> Stor(a.s[1]), l |-> Stor(a.s[2])]
S1(a) == [u |-> Stor(a.s[3]), l |-> Stor(a.s[4])]
FX(a, k) == Field(g, LAMBDA i, j: k * ONE * (IF 2*j <= N THEN a.xw ELSE a.xe))
FY(a, k) == Field(g, LAMBDA i, j: k * ONE * (IF i <= 2 THEN a.yn ELSE a.ys))
Fl(a) == [xu |-> FX(a, 1), xl |-> FX(a, a.ls), yu |-> FY(a, 1), yl |-> FY(a, a.ls),
          p |-> Field(g, LAMBDA i, j: a.pe[1]*ONE), e |-> Field(g, LAMBDA i, j: a.pe[2]*ONE)]
W(a) == Field(g, LAMBDA i, j: a.w * (ONE \div 4))

Do(a, from) == Step(g, Dir, Kvf*ONE, S0(a), S1(a), Fl(a), W(a), from, TRUE)

Tagged0(q) == Field(g, LAMBDA i, j: IF Edge(g, i, j) THEN 0 ELSE q*(ONE \div 4))
Init == /\ step = 0 /\ last = <<>> /\ pend = <<>>
        /\ \E q \in Starts : st = [u |-> Tagged0(q), l |-> Tagged0(q)]
\* choose the forcing of the coming step, then make the step
Pick == /\ step < MaxStep /\ pend = <<>>
        /\ \E a \in Inputs : pend' = <<a>>
        /\ last' = <<>>
        /\ UNCHANGED <<step, st>>
Move == /\ pend # <<>>
        /\ LET r == Do(pend[1], st) IN
             /\ st' = [u |-> r.u, l |-> r.l]
             /\ last' = <<[a |-> pend[1], from |-> st, r |-> r]>>
        /\ step' = step + 1
        /\ pend' = <<>>
Next == Pick \/ Move
Spec == Init /\ [][Next]_vars

(* ---- the guarantees ---- *)
Tol == 12 * M * N
Has == last # <<>>
L == last[1]

BalanceCloses ==
  Has => Near(AreaSum(g, L.r.u) + AreaSum(g, L.r.l) - AreaSum(g, L.from.u) - AreaSum(g, L.from.l),
              AreaSum(g, L.r.tag) - AreaSum(g, L.r.rl) - AreaSum(g, L.r.ru)
              - AreaSum(g, L.r.loss) + AreaSum(g, L.r.gain), Tol)

Bounded ==
  Has => LET to == IF Dir = "forward" THEN S1(L.a) ELSE S0(L.a) IN
    \A i \in 1..M : \A j \in 1..N :
      /\ Between(L.r.u[i][j], 0, to.u[i][j]) /\ Between(L.r.l[i][j], 0, to.l[i][j])
      /\ L.r.loss[i][j] >= 0 /\ L.r.gain[i][j] >= 0 /\ L.r.tag[i][j] >= 0
      /\ L.r.rl[i][j] >= 0 /\ L.r.ru[i][j] >= 0
      /\ L.r.rl[i][j] + L.r.ru[i][j] <= (IF Dir = "forward" THEN L.a.pe[1] ELSE L.a.pe[2]) * ONE + 2

\* moisture is written off only where both layers are full, made up only where one is empty
LimitsLast ==
  Has => LET to == IF Dir = "forward" THEN S1(L.a) ELSE S0(L.a) IN
    \A i \in 1..M : \A j \in 1..N : Edge(g, i, j) \/
      /\ (L.r.loss[i][j] > 0 => L.r.u[i][j] = to.u[i][j] /\ L.r.l[i][j] = to.l[i][j])
      /\ (L.r.gain[i][j] > 0 => L.r.u[i][j] = 0 \/ L.r.l[i][j] = 0)
      /\ (L.r.loss[i][j] = 0 \/ L.r.gain[i][j] = 0)

EdgesEmpty ==
  Has => \A i \in 1..M : \A j \in 1..N : Edge(g, i, j) => L.r.u[i][j] = 0 /\ L.r.l[i][j] = 0

From == IF Dir = "forward" THEN S0(L.a) ELSE S1(L.a)
Capped ==
  Has => LET X == FaceMass(g, Fl(L.a))
             Y == CapFluxes(g, X, From)
         IN \A i \in 1..M : \A j \in 1..N :
              LET half == Mul(From.u[i][j], g.area[i]) \div 2
                  in0 == Abs(X.xu[i][j]) + Abs(X.yu[i][j])
                  out == Abs(Y.xu[i][j]) + Abs(Y.yu[i][j])
              IN /\ out <= half + 2
                 /\ Near(out, Min(in0, half), Max(4, in0 \div 20000 + 8))
                 /\ Sgn(Y.xu[i][j]) \in {0, Sgn(X.xu[i][j])} /\ Sgn(Y.yu[i][j]) \in {0, Sgn(X.yu[i][j])}
                 /\ (in0 <= half - 8 => Near(Y.xu[i][j], X.xu[i][j], 4) /\ Near(Y.yu[i][j], X.yu[i][j], 4))

\* where the vertical flux is not limited, both layers are left with the same
\* relative residual; the limit always holds
ClosureShares ==
  Has => LET X == CapFluxes(g, FaceMass(g, Fl(L.a)), From)
             s0 == S0(L.a)  s1 == S1(L.a)  F == Fl(L.a)
             fz == VerticalFlux(g, X, s0, s1, F, Kvf*ONE, TRUE)
         IN \A i \in 1..M : \A j \in 1..N :
              LET mu == (s0.u[i][j] + s1.u[i][j]) \div 2
                  ml == (s0.l[i][j] + s1.l[i][j]) \div 2
                  lim == Min(mu, ml) \div (Kvf + 1)
                  ru == s1.u[i][j] - s0.u[i][j] + Div((Grad2X(g, X.xu, i, j) - Grad2Y(g, X.yu, i, j)) \div 2, g.area[i])
                        + Mul(F.p[i][j], Div(mu, mu + ml)) + fz[i][j]
                  rl == s1.l[i][j] - s0.l[i][j] + Div((Grad2X(g, X.xl, i, j) - Grad2Y(g, X.yl, i, j)) \div 2, g.area[i])
                        + Mul(F.p[i][j], Div(ml, mu + ml)) - F.e[i][j] - fz[i][j]
              IN /\ Abs(fz[i][j]) <= lim + 2
                 /\ (Abs(fz[i][j]) < lim - 8 =>
                      Near(Div(ru, s1.u[i][j]), Div(rl, s1.l[i][j]), 60))

\* rotating the input of a periodic domain by one column rotates the output
Rot(A) == [i \in 1..M |-> [j \in 1..N |-> A[i][West(g, j)]]]
Rot2(s) == [u |-> Rot(s.u), l |-> Rot(s.l)]
RotF(F) == [xu |-> Rot(F.xu), xl |-> Rot(F.xl), yu |-> Rot(F.yu), yl |-> Rot(F.yl), p |-> Rot(F.p), e |-> Rot(F.e)]
SeamInvisible ==
  (Has /\ Per) =>
    LET r == Step(g, Dir, Kvf*ONE, Rot2(S0(L.a)), Rot2(S1(L.a)), RotF(Fl(L.a)), Rot(W(L.a)), Rot2(L.from), TRUE)
    IN \A i \in 1..M : \A j \in 1..N :
         /\ r.u[i][j] = L.r.u[i][West(g, j)] /\ r.l[i][j] = L.r.l[i][West(g, j)]
         /\ r.loss[i][j] = L.r.loss[i][West(g, j)]

(* ---- the same world seen differently ---- *)
\* east and west exchanged; north and south exchanged (about the equator)
FlipX(A) == [i \in 1..M |-> [j \in 1..N |-> A[i][N + 1 - j]]]
FlipY(A) == [i \in 1..M |-> A[M + 1 - i]]
Neg(A) == [i \in 1..M |-> [j \in 1..N |-> -A[i][j]]]
FlipX2(s) == [u |-> FlipX(s.u), l |-> FlipX(s.l)]
FlipY2(s) == [u |-> FlipY(s.u), l |-> FlipY(s.l)]
Close(A, B, tol) == \A i \in 1..M : \A j \in 1..N : Near(A[i][j], B[i][j], tol)
SameStep(r, q, F(_), tol) ==
  /\ Close(F(r.u), q.u, tol) /\ Close(F(r.l), q.l, tol) /\ Close(F(r.loss), q.loss, tol) /\ Close(F(r.gain), q.gain, tol)
  /\ Close(F(r.rl), q.rl, tol) /\ Close(F(r.ru), q.ru, tol) /\ Close(F(r.tag), q.tag, tol)
EastIsWest ==
  Has => LET F == Fl(L.a)
             Fx == [xu |-> Neg(FlipX(F.xu)), xl |-> Neg(FlipX(F.xl)), yu |-> FlipX(F.yu), yl |-> FlipX(F.yl), p |-> FlipX(F.p), e |-> FlipX(F.e)]
         IN SameStep(L.r, Step(g, Dir, Kvf*ONE, FlipX2(S0(L.a)), FlipX2(S1(L.a)), Fx, FlipX(W(L.a)), FlipX2(L.from), TRUE), FlipX, 40)
NorthIsSouth ==
  Has => LET F == Fl(L.a)
             Fy == [xu |-> FlipY(F.xu), xl |-> FlipY(F.xl), yu |-> Neg(FlipY(F.yu)), yl |-> Neg(FlipY(F.yl)), p |-> FlipY(F.p), e |-> FlipY(F.e)]
             h == MkGrid(M, N, <<-39000, -40000, -41000>>, 1000, 1500, Per)
         IN SameStep(L.r, Step(h, Dir, Kvf*ONE, FlipY2(S0(L.a)), FlipY2(S1(L.a)), Fy, FlipY(W(L.a)), FlipY2(L.from), TRUE), FlipY, 40)
\* twice as much water everywhere
Twice(A) == [i \in 1..M |-> [j \in 1..N |-> 2 * A[i][j]]]
Twice2(s) == [u |-> Twice(s.u), l |-> Twice(s.l)]
AmountsScale ==
  Has => LET F == Fl(L.a)
             F2 == [xu |-> Twice(F.xu), xl |-> Twice(F.xl), yu |-> Twice(F.yu), yl |-> Twice(F.yl), p |-> Twice(F.p), e |-> Twice(F.e)]
         IN SameStep(L.r, Step(g, Dir, Kvf*ONE, Twice2(S0(L.a)), Twice2(S1(L.a)), F2, W(L.a), Twice2(L.from), TRUE), Twice, 80)
\* whatever is different in one cell reaches no further than its four neighbours in a step
Up(A, q, d) == [A EXCEPT ![q[1]][q[2]] = @ + d]
Nb(q) == {q, <<q[1] + 1, q[2]>>, <<q[1] - 1, q[2]>>,
          <<q[1], IF q[2] = N /\ Per THEN 1 ELSE q[2] + 1>>, <<q[1], IF q[2] = 1 /\ Per THEN N ELSE q[2] - 1>>}
Local ==
  Has => \A q \in {<<1, 1>>, <<2, 1>>, <<2, 2>>} :
    LET F == Fl(L.a)
        Fq == [xu |-> Up(F.xu, q, ONE), xl |-> Up(F.xl, q, -ONE), yu |-> Up(F.yu, q, 2*ONE), yl |-> Up(F.yl, q, -3*ONE), p |-> Up(F.p, q, ONE), e |-> Up(F.e, q, 2*ONE)]
        Sq(s) == [u |-> Up(s.u, q, ONE), l |-> Up(s.l, q, 2*ONE)]
        r == Step(g, Dir, Kvf*ONE, Sq(S0(L.a)), Sq(S1(L.a)), Fq, Up(W(L.a), q, ONE \div 8), [u |-> Up(L.from.u, q, ONE), l |-> Up(L.from.l, q, ONE)], TRUE)
    IN \A i \in 1..M : \A j \in 1..N : <<i, j>> \in Nb(q) \/
         /\ r.u[i][j] = L.r.u[i][j] /\ r.l[i][j] = L.r.l[i][j] /\ r.loss[i][j] = L.r.loss[i][j] /\ r.gain[i][j] = L.r.gain[i][j]
         /\ r.rl[i][j] = L.r.rl[i][j] /\ r.ru[i][j] = L.r.ru[i][j] /\ r.tag[i][j] = L.r.tag[i][j]
\* what is tagged and what is already tagged, in two parts, as long as no layer is overfull or overdrawn
Half(A) == [i \in 1..M |-> [j \in 1..N |-> A[i][j] \div 2]]
Half2(s) == [u |-> Half(s.u), l |-> Half(s.l)]
Unlimited(r) == LET to == IF Dir = "forward" THEN S1(L.a) ELSE S0(L.a) IN
  \A i \in 1..M : \A j \in 1..N : /\ r.gain[i][j] = 0 /\ r.u[i][j] < to.u[i][j] - 8 /\ r.l[i][j] < to.l[i][j] - 8
                                   /\ (Edge(g, i, j) \/ r.loss[i][j] = 0)
Additive ==
  (Has /\ Unlimited(L.r)) => SameStep(L.r, Step(g, Dir, Kvf*ONE, S0(L.a), S1(L.a), Fl(L.a), Half(W(L.a)), Half2(L.from), TRUE), Half, 40)

TaggedIsSurfaceFlux ==
  Has => \A i \in 1..M : \A j \in 1..N :
    L.r.tag[i][j] = Mul(L.a.w * (ONE \div 4), (IF Dir = "forward" THEN L.a.pe[2] ELSE L.a.pe[1]) * ONE)

\* values for the configurations (cfg files cannot hold tuples)
FX2 == {-4, 1}
FX3 == {-4, 0, 1}
SV1 == {<<4, 6, 8, 2>>}
SV2 == {<<4, 6, 8, 2>>, <<8, 3, 3, 3>>}
SV3 == {<<4, 6, 4, 6>>, <<4, 6, 8, 2>>, <<8, 3, 3, 3>>}
PV1 == {<<9, 3>>}
PV2 == {<<0, 0>>, <<9, 3>>}
PV3 == {<<0, 0>>, <<2, 1>>, <<9, 3>>}
=============================================================================
