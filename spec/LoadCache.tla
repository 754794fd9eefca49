----------------------------- MODULE LoadCache -----------------------------
(* Design of the forcing cache: a bounded least-recently-used cache whose    *)
(* entries are handed out as copies.  Whatever the order of requests and     *)
(* whatever the model does to what it was handed, it is served what is in    *)
(* the files.  HandOutCopies = FALSE shows that the copies are needed.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Keys, Size, HandOutCopies, MaxOps
VARIABLES cache,    \* sequence of [key, value], most recent last
          held,     \* what the model holds: [key, value, aliased]
          ops
vars == <<cache, held, ops>>
Truth(key) == key
Init == cache = <<>> /\ held = [key |-> 0, value |-> 0, aliased |-> FALSE] /\ ops = 0
Pos(key) == {i \in 1..Len(cache) : cache[i].key = key}
Without(i) == SubSeq(cache, 1, i-1) \o SubSeq(cache, i+1, Len(cache))
Load(key) ==
  /\ ops < MaxOps /\ ops' = ops + 1
  /\ LET hit == Pos(key) # {}
         e == IF hit THEN cache[CHOOSE i \in Pos(key) : TRUE] ELSE [key |-> key, value |-> Truth(key)]
         rest == IF hit THEN Without(CHOOSE i \in Pos(key) : TRUE)
                 ELSE IF Len(cache) = Size THEN Tail(cache) ELSE cache
     IN /\ cache' = Append(rest, e)
        /\ held' = [key |-> key, value |-> e.value, aliased |-> ~HandOutCopies]
Scribble ==
  /\ ops < MaxOps /\ ops' = ops + 1
  /\ held.key # 0 /\ held.value >= 0
  /\ held' = [held EXCEPT !.value = -1]
  /\ cache' = IF held.aliased /\ Pos(held.key) # {}
              THEN [cache EXCEPT ![CHOOSE i \in Pos(held.key) : TRUE].value = -1] ELSE cache
Next == (\E key \in Keys : Load(key)) \/ Scribble
Spec == Init /\ [][Next]_vars
CacheTrue == \A i \in 1..Len(cache) : cache[i].value = Truth(cache[i].key)
Bounded == Len(cache) <= Size /\ \A i, j \in 1..Len(cache) : i # j => cache[i].key # cache[j].key
ServedTrue == [][ \A key \in Keys : Load(key) => held'.value = Truth(key) ]_vars
=============================================================================
