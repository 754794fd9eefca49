----------------------------- MODULE DomainGen -----------------------------
(* All boxes on a set of small grids whose selection is contiguous and not   *)
(* empty; written out to be replayed.                                        *)
EXTENDS DomainSel, Json, IOUtils, TLC, SequencesExt
CONSTANTS GRIDS, STEPS
VARIABLES gi, boxes, phase
vars == <<gi, boxes, phase>>
Norm(x) == ((x + 180000) % 360000) - 180000
Grid(k) == LET g == GRIDS[k] IN
  [lat |-> [i \in 1..4 |-> g[1] - (i-1) * g[2]], lon |-> [j \in 1..g[5] |-> Norm(g[3] + (j-1) * g[4])], dlat |-> g[2], dlon |-> g[4]]
\* sorted by longitude, as preprocessed data is
Sorted(g) == [g EXCEPT !.lon = SortSeq(g.lon, LAMBDA x, y: x < y)]
Edges(x, d) == {x - d \div 2, x, x + d \div 2, x + 1}
Lons(g) == UNION {Edges(g.lon[j], g.dlon) : j \in {1, 2, Len(g.lon) - 1, Len(g.lon)}} \cup {-180000, 180000, 0}
Lats(g) == UNION {Edges(g.lat[i], g.dlat) : i \in STEPS}
Boxes(g) == {b \in Lons(g) \X Lats(g) \X Lons(g) \X Lats(g) :
               /\ b[2] < b[4] /\ -80000 <= b[2] /\ b[4] <= 80000
               /\ -180000 <= b[1] /\ b[1] <= 180000 /\ -180000 <= b[3] /\ b[3] <= 180000}
\* a selection is usable if its cells can be put next to each other
Usable(g, b) ==
  LET C == {g.lon[j] : j \in Cols(g, b)} IN
  /\ Rows(g, b) # {} /\ C # {}
  /\ b[1] > b[3] => Cardinality({x \in C : Norm(x + g.dlon) \notin C}) <= 1
Init == gi = 1 /\ boxes = <<>> /\ phase = "run"
Collect == /\ phase = "run" /\ gi <= Len(GRIDS)
           /\ LET g == Sorted(Grid(gi)) IN
              boxes' = Append(boxes, [grid |-> g, boxes |-> SetToSeq({b \in Boxes(g) : Usable(g, b)})])
           /\ gi' = gi + 1 /\ UNCHANGED phase
Write == phase = "run" /\ gi > Len(GRIDS) /\ JsonSerialize(IOEnv.VF_OUT, boxes) /\ phase' = "written" /\ UNCHANGED <<gi, boxes>>
Next == Collect \/ Write
Spec == Init /\ [][Next]_vars
\* grids: northernmost latitude, spacing, westernmost longitude, spacing, columns
SMALL1 == << <<41000, 1000, -180000, 60000, 6>>, <<2000, 1000, -180000, 45000, 8>>, <<50000, 500, 5000, 1000, 5>>,
             <<-30000, 1000, 178000, 1000, 5>>, <<60000, 2000, -180000, 1000, 4>>, <<10000, 1000, 176000, 1000, 4>> >>
ROWS1 == {1, 2, 4}
ROWS2 == {1, 2, 3, 4}
=============================================================================
