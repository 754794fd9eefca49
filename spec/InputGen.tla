------------------------------ MODULE InputGen ------------------------------
(* Writes every dataset with at most one damage, and the values and series   *)
(* from which pairs are drawn.                                               *)
EXTENDS InputCheckMC
OneDamage ==
       {Good}
  \cup {[Good EXCEPT !.vars[p[1]].units = p[2]] : p \in Names \X (Units \cup UNION {Valid(v) : v \in Names})}
  \cup UNION {{[Good EXCEPT !.vars[v].min = x.min, !.vars[v].max = x.max] : x \in Values \cup Around(v)} : v \in Names}
  \cup {[Good EXCEPT !.vars[p[1]].dims = p[2]] : p \in Names \X Shapes}
  \cup {[Good EXCEPT !.coords[p[1]] = p[2]] : p \in Dims \X Series}
Write == n = 0 /\ n' = 1 /\ JsonSerialize(IOEnv.VF_OUT, SetToSeq(OneDamage)) /\ UNCHANGED <<ds, hurt>>
GenSpec == Init /\ [][Write]_vars
=============================================================================
