------------------------------- MODULE CliGen -------------------------------
(* Sequences of commands in folders with different data.  One of each        *)
(* command, and random sequences in which most of the commands can succeed.  *)
EXTENDS Cli, TLC, Json, IOUtils, SequencesExt
CONSTANTS COUNT, LENGTH, PART, PARTS
VARIABLES s, todo, done, drawn, phase
vars == <<s, todo, done, drawn, phase>>
Worlds == {[raw |-> r, pre |-> p, forward |-> FALSE, backward |-> FALSE] : r \in SUBSET Sources, p \in {"none", "era5"}}
Alone == {<<x>> : x \in {x \in Commands : x.place = "own" \/ (x.cfg = "good" /\ ~x.debug)}}
\* going on from results of one or both directions
C(do, arg, cfg) == [do |-> do, arg |-> arg, cfg |-> cfg, place |-> "own", debug |-> FALSE]
Other(d) == IF d = "forward" THEN "backward" ELSE "forward"
Twice == {<<C("track", d, "good"), C("track", d, "again")>> : d \in Directions}
    \cup {<<C("track", d, "good"), C("track", Other(d), "again")>> : d \in Directions}
    \cup {<<C("track", d, "good"), C("track", Other(d), "good"), C("track", d, "again"), C("track", Other(d), "again")>> : d \in Directions}
    \cup {<<C("preprocess", x, "good"), C("track", d, "good"), C("preprocess", x, "good"), C("track", d, "good")>> : x \in Sources, d \in Directions}
First == [raw |-> Sources, pre |-> "era5", forward |-> FALSE, backward |-> FALSE]
\* draw a command, preferring good ones
Draw(st) == LET good == {x \in Commands : Succeeds(st, x) /\ x.do # "show"} IN
            IF good # {} /\ RandomElement(1..3) # 1 THEN RandomElement(good) ELSE RandomElement(Commands)
Init == /\ phase = "run" /\ drawn = <<>> /\ todo = 0 /\ s = First
        /\ done = LET q == SetToSeq(Alone \cup Twice) IN SelectSeq([n \in 1..Len(q) |-> [world |-> [First EXCEPT !.raw = SetToSeq(@)], commands |-> IF n % PARTS = PART THEN q[n] ELSE <<>>]], LAMBDA z : z.commands # <<>>)
Begin == /\ phase = "run" /\ drawn = <<>> /\ todo < COUNT
         /\ s' \in {RandomElement(Worlds)} /\ phase' = "draw" /\ UNCHANGED <<todo, done, drawn>>
World == [s EXCEPT !.raw = SetToSeq(@)]
Add == /\ phase = "draw" /\ Len(drawn) < LENGTH
       /\ \E x \in {Draw(IF drawn = <<>> THEN s ELSE drawn[Len(drawn)].after)} :
            drawn' = Append(drawn, [x |-> x, after |-> After(IF drawn = <<>> THEN s ELSE drawn[Len(drawn)].after, x)])
       /\ UNCHANGED <<s, todo, done, phase>>
End == /\ phase = "draw" /\ Len(drawn) = LENGTH
       /\ done' = Append(done, [world |-> World, commands |-> [n \in 1..LENGTH |-> drawn[n].x]])
       /\ drawn' = <<>> /\ todo' = todo + 1 /\ phase' = "run" /\ UNCHANGED s
Write == phase = "run" /\ todo = COUNT /\ JsonSerialize(IOEnv.VF_OUT, done) /\ phase' = "written" /\ UNCHANGED <<s, todo, done, drawn>>
Next == Begin \/ Add \/ End \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
