------------------------------ MODULE Geometry ------------------------------
(* Geometry of a regular latitude-longitude grid.                            *)
(* Lengths are in units of one degree of latitude of the model (111089.56 m), *)
(* areas in the square of that unit.  Positions are in thousandths of degrees.*)
EXTENDS Fx

\* (6.371e6 * pi/180 / 111089.56)^2
AREAUNIT == 262642

RowArea(lat, dlat, dlon) ==
  LET n == Min(90000, lat + dlat \div 2)
      s == Max(-90000, lat - dlat \div 2)
      c == (n + s) \div 2
      h == n - s
      slab == Mul(Mul(AREAUNIT, CosMDeg(c)), Sinc(MDeg2Rad(h) \div 2))
  IN  Mul(Mul(slab, Frac(ONE, h % 1000, 1000) + (h \div 1000)*ONE),
          Frac(ONE, dlon % 1000, 1000) + (dlon \div 1000)*ONE)

\* mean length of the northern and southern edge of a cell
RowWidth(lat, dlat, dlon) ==
  Mul(Mul(CosMDeg(lat), CosMDeg(dlat \div 2)),
      Frac(ONE, dlon % 1000, 1000) + (dlon \div 1000)*ONE)

ColHeight(dlat) == Frac(ONE, dlat % 1000, 1000) + (dlat \div 1000)*ONE

\* The grid of a run: m rows (north to south), n columns
MkGrid(m, n, lat, dlat, dlon, per) ==
  [m |-> m, n |-> n, per |-> per,
   area |-> TLCEval([i \in 1..m |-> RowArea(lat[i], dlat, dlon)]),
   wx   |-> TLCEval([i \in 1..m |-> RowWidth(lat[i], dlat, dlon)]),
   wy   |-> ColHeight(dlat)]
=============================================================================
