---------------------------- MODULE InputCheckMC ----------------------------
(* Data that is damaged step by step.  Sound data has no problem; damage to  *)
(* one variable is charged to that variable alone, damage to a coordinate to *)
(* the coordinate or to the variables that need it; what is mended is not    *)
(* reported any longer.  The states are written out as cases for the program.*)
EXTENDS InputCheck, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANTS MaxDamage
VARIABLES ds, hurt, n
vars == <<ds, hurt, n>>
Good == [vars |-> [v \in Names |-> [units |-> CHOOSE u \in Valid(v) : TRUE, dims |-> <<"time", "latitude", "longitude">>, min |-> IF Signed(v) THEN -5 ELSE 0, max |-> 500]],
         coords |-> [d \in Dims |-> IF d = "latitude" THEN <<3000, 2000, 1000>> ELSE <<0, 1000, 2000>>]]
Values == {[min |-> NoValue, max |-> NoValue], [min |-> -1, max |-> 5], [min |-> 0, max |-> 1001], [min |-> -1, max |-> 100001],
           [min |-> 1001, max |-> 1001], [min |-> -1000000001, max |-> 0], [min |-> -1000000001, max |-> 1000000001], [min |-> 0, max |-> 1000]}
\* at the limits of the variable, and just beyond
Around(v) == {[min |-> Least(v), max |-> Most(v)], [min |-> Least(v) - 1, max |-> Most(v)], [min |-> Least(v), max |-> Most(v) + 1], [min |-> Most(v), max |-> Most(v)]}
Units == {"", "mm", "kg m-2", "kg/m2/s", "kg m**-1 s**-1"}
Shapes == {<<"latitude", "longitude">>, <<"time", "level", "latitude", "longitude">>, <<"time", "latitude", "place">>}
Series == {<<>>, <<0>>, <<0, 1000, 3000>>, <<0, 1000, 2000>>, <<2000, 1000, 0>>, <<0, 0, 0>>}
Init == ds = Good /\ hurt = {} /\ n = 0
Harm(v, x) == ds' = [ds EXCEPT !.vars[v] = x] /\ hurt' = hurt \cup {v}
HarmVar == \E v \in Names : v \notin hurt /\
             \/ \E u \in Units : Harm(v, [ds.vars[v] EXCEPT !.units = u])
             \/ \E x \in Values \cup Around(v) : Harm(v, [ds.vars[v] EXCEPT !.min = x.min, !.max = x.max])
             \/ \E s \in Shapes : Harm(v, [ds.vars[v] EXCEPT !.dims = s])
HarmCoord == \E d \in Dims : d \notin hurt /\ \E q \in Series :
               ds' = [ds EXCEPT !.coords[d] = q] /\ hurt' = hurt \cup {d}
Next == n < MaxDamage /\ n' = n + 1 /\ (HarmVar \/ HarmCoord)
Spec == Init /\ [][Next]_vars
SoundIsSilent == Problems(Good) = {}
Charged == \A p \in Problems(ds) : p[2] \in hurt \/ p[3] \in hurt
\* values below the range are never acceptable, whatever the largest one is
NoMask == \A v \in Names : LET x == ds.vars[v] IN
            (x.min # NoValue /\ x.min >= Least(v) /\ x.max <= Most(v)) <=> <<"range", v, "">> \notin Problems(ds)
\* mending everything that was hurt leaves no problem
Mended == [ds EXCEPT !.vars = [v \in Names |-> IF v \in hurt THEN Good.vars[v] ELSE ds.vars[v]],
                     !.coords = [d \in Dims |-> IF d \in hurt THEN Good.coords[d] ELSE ds.coords[d]]]
Mends == Problems(Mended) = {}
=============================================================================
