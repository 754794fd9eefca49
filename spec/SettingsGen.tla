---------------------------- MODULE SettingsGen -----------------------------
(* Configurations to try: one setting off the base; two; calendars with all  *)
(* pairs of dates of a period; and random ones with everything changed,      *)
(* all of them valid.                                                        *)
EXTENDS Settings, Json, IOUtils, SequencesExt
CONSTANTS STEP, OFFSET, RANDOM
VARIABLES phase, out, k, drawn
vars == <<phase, out, k, drawn>>
Singles == {<<<<s, v>>>> : <<s, v>> \in UNION {{s} \X Values(s) : s \in Names}}
ASSUME Accepted(Base)
\* of each setting, and of the pairs of settings, a part
Line == SetToSeq(UNION {{s} \X Values(s) : s \in Names})
Pair(n) == LET a == (n \div Len(Line)) + 1  b == (n % Len(Line)) + 1 IN <<Line[a], Line[b]>>
IsPair(p) == p[1][1] # p[2][1]
NPAIRS == Len(Line) * Len(Line)
Three == {<<<<"calendar", S(c)>>, <<p[1], a>>, <<p[2], b>>>> : c \in Calendars, p \in Periods, a \in Dates, b \in Dates}
ValidOf == [s \in Names |-> {v \in Values(s) : Fits(s, v)}]
Valid(s) == IF s \in DateNames THEN {v \in Dates : \A c \in Calendars : IsDate(c, v)} ELSE ValidOf[s]
Ordered(c) == [s \in Names |->
  IF \E p \in Periods : p[1] = s \/ p[2] = s
  THEN LET p == CHOOSE p \in Periods : p[1] = s \/ p[2] = s  ok == NotAfter(c[p[1]], c[p[2]])
       IN IF ok THEN c[s] ELSE c[IF s = p[1] THEN p[2] ELSE p[1]]
  ELSE c[s]]
AsOver(c) == LET q == SetToSeq(Names) IN [n \in 1..Len(q) |-> <<q[n], c[q[n]]>>]
Init == phase = "singles" /\ out = <<>> /\ k = 0 /\ drawn = <<>>
One == phase = "singles" /\ out' = SetToSeq(Singles) \o (IF STEP = 0 THEN <<>> ELSE SetToSeq(Three)) /\ phase' = "pairs" /\ k' = OFFSET /\ UNCHANGED drawn
Two == /\ phase = "pairs" /\ STEP > 0
       /\ LET ns == {n \in {OFFSET + (i * STEP) : i \in 0..(NPAIRS \div STEP)} : n < NPAIRS /\ IsPair(Pair(n))}
          IN out' = out \o SetToSeq({Pair(n) : n \in ns})
       /\ phase' = "random" /\ k' = 0 /\ UNCHANGED drawn
Skip == phase = "pairs" /\ STEP = 0 /\ phase' = "random" /\ k' = 0 /\ UNCHANGED <<out, drawn>>
\* (the choices are drawn once, by making them a state)
Many == /\ phase = "random" /\ phase' = "drawn" /\ UNCHANGED <<out, k>>
        /\ drawn' = [n \in 1..RANDOM |-> [s \in Names |-> RandomElement(Valid(s))]]
Keep == /\ phase = "drawn" /\ phase' = "kept" /\ drawn' = <<>> /\ UNCHANGED k
        /\ out' = out \o [n \in 1..RANDOM |-> AsOver(Ordered(drawn[n]))]
Write == phase = "kept" /\ JsonSerialize(IOEnv.VF_OUT, [base |-> AsOver(Base), cases |-> out]) /\ phase' = "written" /\ UNCHANGED <<out, k, drawn>>
Next == One \/ Two \/ Skip \/ Many \/ Keep \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
