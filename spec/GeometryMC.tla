----------------------------- MODULE GeometryMC -----------------------------
(* Facts about the geometry that must hold for every position and spacing.   *)
EXTENDS Geometry
VARIABLES lat, dlat, dlon
Init == /\ lat \in {k*1000 : k \in -90..90}
        /\ dlat \in {250, 500, 1000, 2000, 3000, 12000}
        /\ dlon \in {250, 1000, 3000}
Next == UNCHANGED <<lat, dlat, dlon>>
Spec == Init /\ [][Next]_<<lat, dlat, dlon>>

\* splitting a cell in latitude or longitude preserves its area
AreaSums ==
  Abs(lat) <= 85000 /\ dlat >= 500 =>
  /\ Near(RowArea(lat, dlat, dlon),
          RowArea(lat + dlat \div 4, dlat \div 2, dlon) + RowArea(lat - dlat \div 4, dlat \div 2, dlon),
          40 + 20 * (dlon \div 1000))
  /\ Near(RowArea(lat, dlat, dlon), 2 * RowArea(lat, dlat, dlon \div 2), 40 + 20 * (dlon \div 1000))
Symmetric == /\ Near(RowArea(lat, dlat, dlon), RowArea(-lat, dlat, dlon), 40)
             /\ RowWidth(lat, dlat, dlon) = RowWidth(-lat, dlat, dlon)
\* a polar row is half a cell high; the two halves of a cap are what is left
PolesCapped == lat = 90000 => RowArea(lat, dlat, dlon) <= RowArea(lat - dlat, dlat, dlon)
\* away from the poles area = height * width up to the deviation of units (0.2 %)
WidthBelowArea ==
  Abs(lat) <= 80000 /\ dlat <= 3000 =>
  LET a == RowArea(lat, dlat, dlon)
      b == Mul(ColHeight(dlat), RowWidth(lat, dlat, dlon))
  IN Near(a, b, a \div 400 + 40)
=============================================================================
