------------------------------ MODULE Transport ------------------------------
(* One time step of moisture tracking on a two-layer grid.                   *)
(*                                                                           *)
(* All amounts are per step, in kg m-2 (fixed point).  Horizontal fluxes are *)
(* given per cell as F*dt/dg (kg m-2 * degree).  A field is a sequence of    *)
(* rows (north to south) of sequences of columns (west to east).             *)
(*                                                                           *)
(* The stages mirror the model: face mass -> CFL cap -> vertical closure ->  *)
(* transport, sources and sinks -> absorbing edges -> redistribution -> clip. *)
EXTENDS Geometry

Field(g, Op(_, _)) ==
  TLCEval([i \in 1..g.m |-> TLCEval([j \in 1..g.n |-> Op(i, j)])])

\* neighbours in x; only evaluated where they exist
East(g, j) == IF j = g.n THEN 1 ELSE j + 1
West(g, j) == IF j = 1 THEN g.n ELSE j - 1

Edge(g, i, j) == \/ i = 1 \/ i = g.m
                 \/ (~g.per /\ (j = 1 \/ j = g.n))

(* ---------------- horizontal fluxes and their cap ------------------------ *)
\* mass through the cell in x and y during a step, relative to unit area
FaceMass(g, F) ==
  [xu |-> Field(g, LAMBDA i, j: Mul(F.xu[i][j], g.wy)),
   xl |-> Field(g, LAMBDA i, j: Mul(F.xl[i][j], g.wy)),
   yu |-> Field(g, LAMBDA i, j: Mul(F.yu[i][j], g.wx[i])),
   yl |-> Field(g, LAMBDA i, j: Mul(F.yl[i][j], g.wx[i]))]

\* component a of the pair (a, b), capped so that |a|+|b| <= sa/2
Cap(a, b, sa) ==
  LET ft == Abs(a) + Abs(b) IN
  IF ft = 0 THEN 0
  ELSE Sgn(a) * Min(Abs(a), Mul(Div(Abs(a), ft) \div 2, sa))

CapFluxes(g, X, s) ==
  [xu |-> Field(g, LAMBDA i, j: Cap(X.xu[i][j], X.yu[i][j], Mul(s.u[i][j], g.area[i]))),
   yu |-> Field(g, LAMBDA i, j: Cap(X.yu[i][j], X.xu[i][j], Mul(s.u[i][j], g.area[i]))),
   xl |-> Field(g, LAMBDA i, j: Cap(X.xl[i][j], X.yl[i][j], Mul(s.l[i][j], g.area[i]))),
   yl |-> Field(g, LAMBDA i, j: Cap(X.yl[i][j], X.xl[i][j], Mul(s.l[i][j], g.area[i])))]

(* ---------------- vertical closure --------------------------------------- *)
\* twice the difference quotient along x / along y (southward index)
Grad2X(g, A, i, j) ==
  IF g.per THEN A[i][East(g, j)] - A[i][West(g, j)]
  ELSE IF j = 1 THEN 2*(A[i][2] - A[i][1])
  ELSE IF j = g.n THEN 2*(A[i][j] - A[i][j-1])
  ELSE A[i][j+1] - A[i][j-1]
Grad2Y(g, A, i, j) ==
  IF i = 1 THEN 2*(A[2][j] - A[1][j])
  ELSE IF i = g.m THEN 2*(A[i][j] - A[i-1][j])
  ELSE A[i+1][j] - A[i-1][j]

\* Net vertical flux over the step, positive downward.
\* "surface" = TRUE:  rain and evaporation take part in the layer balances.
\* "surface" = FALSE: the implementation's known deviation; it divides rain
\*                    and evaporation by the cell area in m2, i.e. ignores them.
VerticalFlux(g, X, S0, S1, F, kvf, surface) ==
  Field(g, LAMBDA i, j:
    LET mu == (S0.u[i][j] + S1.u[i][j]) \div 2
        ml == (S0.l[i][j] + S1.l[i][j]) \div 2
        divu == Div((Grad2X(g, X.xu, i, j) - Grad2Y(g, X.yu, i, j)) \div 2, g.area[i])
        divl == Div((Grad2X(g, X.xl, i, j) - Grad2Y(g, X.yl, i, j)) \div 2, g.area[i])
        pu == IF surface THEN Mul(F.p[i][j], Div(mu, mu + ml)) ELSE 0
        pl == IF surface THEN Mul(F.p[i][j], Div(ml, mu + ml)) - F.e[i][j] ELSE 0
        resu == S1.u[i][j] - S0.u[i][j] + divu + pu
        resl == S1.l[i][j] - S0.l[i][j] + divl + pl
        fz == resl - Mul(Div(S1.l[i][j], S1.l[i][j] + S1.u[i][j]), resu + resl)
        lim == Mul(Div(ONE, kvf + ONE), Min(mu, ml))
    IN Sgn(fz) * Min(Abs(fz), lim))

(* ---------------- transport of the tagged fraction ----------------------- *)
\* Tagged mass through the east face of (i, j) / the south face of (i, j);
\* sg = 1 with the wind, -1 against it.
ThroughEast(g, X, r, sg, i, j) ==
  IF i = 1 \/ i = g.m \/ (~g.per /\ j = g.n) THEN 0
  ELSE LET u == sg * ((X[i][j] + X[i][East(g, j)]) \div 2)
       IN IF u > 0 THEN Mul(u, r[i][j]) ELSE Mul(u, r[i][East(g, j)])
\* positive northward
ThroughSouth(g, Y, r, sg, i, j) ==
  IF i = g.m \/ (~g.per /\ (j = 1 \/ j = g.n)) THEN 0
  ELSE LET v == sg * ((Y[i][j] + Y[i+1][j]) \div 2)
       IN IF v > 0 THEN Mul(v, r[i+1][j]) ELSE Mul(v, r[i][j])

Advection(g, X, Y, r, sg) ==
  LET ux == Field(g, LAMBDA i, j: ThroughEast(g, X, r, sg, i, j))
      vy == Field(g, LAMBDA i, j: ThroughSouth(g, Y, r, sg, i, j))
  IN  Field(g, LAMBDA i, j:
        LET w == IF j = 1 THEN (IF g.per THEN ux[i][g.n] ELSE 0) ELSE ux[i][j-1]
            n == IF i = 1 THEN 0 ELSE vy[i-1][j]
        IN  Div(w - ux[i][j] + vy[i][j] - n, g.area[i]))

Upwind(fv, ru, rl) == IF fv >= 0 THEN Mul(fv, ru) ELSE Mul(fv, rl)

\* tagged fraction of a layer
Fraction(st, s) == IF st >= s THEN ONE ELSE Div(st, s)

(* ---------------- after transport: edges, redistribution, clip ----------- *)
\* cell-wise; cu, cl: moisture present in the layers at the new time
Settle(u0, l0, cu, cl, edge) ==
  LET u1 == IF edge THEN 0 ELSE u0
      l1 == IF edge THEN 0 ELSE l0
      ou == Max(0, u1 - cu)
      ol == Max(0, l1 - cl)
      u2 == u1 - ou + ol
      l2 == l1 - ol + ou
      gain == Max(0, -u2) + Max(0, -l2)
      u3 == Max(0, u2)
      l3 == Max(0, l2)
      loss == (IF edge THEN u0 + l0 ELSE 0) + Max(0, u3 - cu) + Max(0, l3 - cl)
  IN  [u |-> Min(u3, cu), l |-> Min(l3, cl), loss |-> loss, gain |-> gain]

(* ---------------- the step ------------------------------------------------ *)
\* dir "forward"/"backward"; S0, S1 moisture at the earlier/later end of the
\* step; F fluxes at the middle; st tagged moisture; w region weights (0..ONE),
\* all zero outside the tagging period.
Step(g, dir, kvf, S0, S1, F, w, st, surface) ==
  LET fwd == dir = "forward"
      sg  == IF fwd THEN 1 ELSE -1
      sFrom == IF fwd THEN S0 ELSE S1     \* moisture where the step starts
      sTo   == IF fwd THEN S1 ELSE S0     \* moisture where it ends
      X  == CapFluxes(g, FaceMass(g, F), sFrom)
      fz == VerticalFlux(g, X, S0, S1, F, kvf, surface)
      ru == Field(g, LAMBDA i, j: Fraction(st.u[i][j], sFrom.u[i][j]))
      rl == Field(g, LAMBDA i, j: Fraction(st.l[i][j], sFrom.l[i][j]))
      au == Advection(g, X.xu, X.yu, ru, sg)
      al == Advection(g, X.xl, X.yl, rl, sg)
      share(i, j) == Div(sFrom.l[i][j], sFrom.l[i][j] + sFrom.u[i][j])
      cell(i, j) ==
        LET fv == sg * fz[i][j]
            vx == Upwind(fv, ru[i][j], rl[i][j])
                  + Mul(Mul(kvf, Abs(fv)), ru[i][j] - rl[i][j])
            p  == F.p[i][j]
            pl == Mul(p, share(i, j))
            pu == p - pl
            e  == F.e[i][j]
            tag == Mul(w[i][j], IF fwd THEN e ELSE p)
            tl == IF fwd THEN tag ELSE Mul(w[i][j], pl)
            tu == IF fwd THEN 0 ELSE tag - tl
            rtl == IF fwd THEN Mul(pl, rl[i][j]) ELSE Mul(e, rl[i][j])
            rtu == IF fwd THEN Mul(pu, ru[i][j]) ELSE 0
            z == Settle(st.u[i][j] + au[i][j] - vx + tu - rtu,
                        st.l[i][j] + al[i][j] + vx + tl - rtl,
                        sTo.u[i][j], sTo.l[i][j], Edge(g, i, j))
        IN  [u |-> z.u, l |-> z.l, loss |-> z.loss, gain |-> z.gain,
             tag |-> tag, rl |-> rtl, ru |-> rtu]
      cells == Field(g, LAMBDA i, j: cell(i, j))
  IN  [u    |-> Field(g, LAMBDA i, j: cells[i][j].u),
       l    |-> Field(g, LAMBDA i, j: cells[i][j].l),
       loss |-> Field(g, LAMBDA i, j: cells[i][j].loss),
       gain |-> Field(g, LAMBDA i, j: cells[i][j].gain),
       tag  |-> Field(g, LAMBDA i, j: cells[i][j].tag),
       rl   |-> Field(g, LAMBDA i, j: cells[i][j].rl),
       ru   |-> Field(g, LAMBDA i, j: cells[i][j].ru)]

(* ---------------- area-weighted totals ------------------------------------ *)
RowSum(A, i, n) == SumSeqTo(A[i], n)
RECURSIVE AreaSumTo(_, _, _)
AreaSumTo(g, A, i) ==
  IF i = 0 THEN 0 ELSE Mul(g.area[i], RowSum(A, i, g.n)) + AreaSumTo(g, A, i-1)
AreaSum(g, A) == AreaSumTo(g, A, g.m)
=============================================================================
