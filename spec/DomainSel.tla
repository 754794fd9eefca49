----------------------------- MODULE DomainSel -----------------------------
(* Which cells of a grid a box selects, and in which order.                  *)
(* Longitudes in thousandths of degrees in [-180000, 180000); rows run from  *)
(* north to south.                                                           *)
EXTENDS Integers, Sequences, FiniteSets
InLat(y, b) == b[2] <= y /\ y <= b[4]
InLon(x, b) == IF b[1] <= b[3] THEN b[1] <= x /\ x <= b[3] ELSE x >= b[1] \/ x <= b[3]
Rows(g, b) == {i \in 1..Len(g.lat) : InLat(g.lat[i], b)}
Cols(g, b) == {j \in 1..Len(g.lon) : InLon(g.lon[j], b)}
\* distance eastward
East(x, y) == (y - x) % 360000
\* s: sequence of selected longitudes; each next cell is the eastern neighbour
Contiguous(s, dlon) == \A k \in 1..(Len(s) - 1) : East(s[k], s[k+1]) = dlon
Increasing(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k+1]
Decreasing(s) == \A k \in 1..(Len(s) - 1) : s[k+1] < s[k]
Vals(s) == {s[k] : k \in 1..Len(s)}
Selects(g, b, lats, lons) ==
  /\ Len(lats) = Cardinality(Rows(g, b)) /\ Vals(lats) = {g.lat[i] : i \in Rows(g, b)} /\ Decreasing(lats)
  /\ Len(lons) = Cardinality(Cols(g, b)) /\ Vals(lons) = {g.lon[j] : j \in Cols(g, b)}
  /\ IF b[1] <= b[3] THEN Increasing(lons) ELSE Contiguous(lons, g.dlon)
=============================================================================
