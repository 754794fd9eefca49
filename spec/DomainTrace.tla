---------------------------- MODULE DomainTrace ----------------------------
(* Selections made by the program: coordinates it kept and the values found  *)
(* there (value of cell (i, j) in the input: 1000 i + j).                    *)
EXTENDS DomainSel, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, verdict, phase
vars == <<c, verdict, phase>>
R == Cases[c]
G == R.grid
RowOf(y) == CHOOSE i \in 1..Len(G.lat) : G.lat[i] = y
ColOf(x) == CHOOSE j \in 1..Len(G.lon) : G.lon[j] = x
OwnData == \A i \in 1..Len(R.lats) : \A j \in 1..Len(R.lons) :
             R.values[i][j] = 1000 * RowOf(R.lats[i]) + ColOf(R.lons[j])
Why == IF ~Selects(G, R.box, R.lats, R.lons) THEN "cells"
       ELSE IF ~OwnData THEN "values" ELSE "ok"
Init == c = 1 /\ verdict = <<>> /\ phase = "run"
Check == /\ phase = "run" /\ c <= Len(Cases)
         /\ verdict' = Append(verdict, [run |-> R.id, ok |-> Why = "ok", why |-> Why, cells |-> Cardinality(Rows(G, R.box)) * Cardinality(Cols(G, R.box))])
         /\ c' = c + 1 /\ UNCHANGED phase
Write == phase = "run" /\ c > Len(Cases) /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written" /\ UNCHANGED <<c, verdict>>
Next == Check \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
