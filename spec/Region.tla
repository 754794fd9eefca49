------------------------------- MODULE Region --------------------------------
(* The share of each grid cell covered by a polygon.                         *)
(*                                                                           *)
(* A polygon is a sequence of rings [sign, pts]; sign is 1 for an outer ring *)
(* and -1 for a hole; pts are <<x, y>> in quarters of a thousandth of a      *)
(* degree.  A ring is clipped to the box of a cell, side by side             *)
(* (Sutherland-Hodgman: the covered area is right for any simple ring), and  *)
(* its area taken relative to the corner of the box.                         *)
EXTENDS Fx

\* a * n / d for |n| <= |d|, through a fixed-point quotient
Part(a, n, d) == Mul(a, Div(n, d))

\* clipping to one half plane: axis 1 (x) or 2 (y), keep > 0: coordinate >= at, else <= at
Inside(p, axis, keep, at) == IF keep > 0 THEN p[axis] >= at ELSE p[axis] <= at
Crossing(p, q, axis, at) ==
  LET oth == 3 - axis
      v == p[oth] + Part(q[oth] - p[oth], at - p[axis], q[axis] - p[axis])
  IN IF axis = 1 THEN <<at, v>> ELSE <<v, at>>

RECURSIVE ClipFrom(_, _, _, _, _)
ClipFrom(pts, k, axis, keep, at) ==
  IF k > Len(pts) THEN <<>>
  ELSE LET p == pts[IF k = 1 THEN Len(pts) ELSE k-1]
           q == pts[k]
           pin == Inside(p, axis, keep, at)
           qin == Inside(q, axis, keep, at)
           new == IF pin /\ qin THEN <<q>>
                  ELSE IF pin THEN <<Crossing(p, q, axis, at)>>
                  ELSE IF qin THEN <<Crossing(p, q, axis, at), q>>
                  ELSE <<>>
       IN new \o ClipFrom(pts, k+1, axis, keep, at)
Clip(pts, axis, keep, at) == TLCEval(ClipFrom(pts, 1, axis, keep, at))

\* twice the area, relative to the corner (x, y)
RECURSIVE CrossFrom(_, _, _, _)
CrossFrom(pts, k, x, y) ==
  IF k > Len(pts) THEN 0
  ELSE LET p == pts[k]
           q == pts[IF k = Len(pts) THEN 1 ELSE k+1]
       IN (p[1] - x) * (q[2] - y) - (q[1] - x) * (p[2] - y) + CrossFrom(pts, k+1, x, y)
Area2(pts, x, y) == Abs(CrossFrom(pts, 1, x, y))

BoxArea2(pts, w, s, e, n) ==
  LET a == Clip(pts, 1, 1, w)
      b == Clip(a, 1, -1, e)
      c == Clip(b, 2, 1, s)
      d == Clip(c, 2, -1, n)
  IN IF Len(d) < 3 THEN 0 ELSE Area2(d, w, s)

RECURSIVE RingsArea2(_, _, _, _, _, _)
RingsArea2(rings, k, w, s, e, n) ==
  IF k > Len(rings) THEN 0
  ELSE rings[k].sign * BoxArea2(rings[k].pts, w, s, e, n) + RingsArea2(rings, k+1, w, s, e, n)

\* the share of the box centred at (x, y) with sides dx, dy; same units, dx and dy even
Share(rings, x, y, dx, dy) ==
  Div(RingsArea2(rings, 1, x - dx \div 2, y - dy \div 2, x + dx \div 2, y + dy \div 2), 2 * dx * dy)
=============================================================================
