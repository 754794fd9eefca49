------------------------------ MODULE Designer ------------------------------
(* Tagging regions made with the region designer: squares around points and  *)
(* tracks, and unions of named regions.  Degrees are in thousandths.         *)
EXTENDS Integers, Sequences

Abs1(x) == IF x < 0 THEN -x ELSE x
\* the shorter way around the globe, for longitudes in any convention
Apart(x, y) == LET d == (x - y) % 360000 IN IF d > 180000 THEN 360000 - d ELSE d
InSquare(y, x, p, radius) == Abs1(y - p[1]) <= radius /\ Apart(x, p[2]) <= radius

\* boxes <<west, south, east, north>> of a named region; west may lie east of east
InBox(b, y, x) ==
  LET w == b[1] % 360000  e == b[3] % 360000  q == x % 360000
  IN /\ b[2] <= y /\ y <= b[4]
     /\ IF w <= e THEN w <= q /\ q <= e ELSE q >= w \/ q <= e

\* numbers of regions and collections: the first region of a collection
First(source) == IF source \in {"giorgi", "srex", "prudence"} THEN 1 ELSE 0
Known(source) == source \in {"giorgi", "srex", "prudence", "ar6.all", "shapefile"}

\* the cells of a designed region at its k-th time
Marked(d, k, y, x) ==
  CASE d.kind = "point" -> InSquare(y, x, d.points[1], d.radius)
    [] d.kind = "track" -> InSquare(y, x, d.points[k], d.radius)
    [] OTHER -> \E q \in 1..Len(d.selected) : InBox(d.boxes[d.selected[q] - First(d.source) + 1], y, x)
=============================================================================
