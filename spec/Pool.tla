-------------------------------- MODULE Pool --------------------------------
(* Preprocessing days with a pool of workers: days are handed out one after  *)
(* the other to whichever worker is free; each day is written to its own     *)
(* file, one time after the other.  A day with unusable data fails.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS DAYS, WORKERS, BAD       \* BAD: days with unusable data
VARIABLES todo, busy, file, failed, exit
vars == <<todo, busy, file, failed, exit>>
Times == 2
Init == /\ todo = [d \in 1..DAYS |-> d] /\ busy = [w \in 1..WORKERS |-> 0]
        /\ file = [d \in 1..DAYS |-> <<>>] /\ failed = {} /\ exit = "none"
Take(w) == /\ exit = "none" /\ busy[w] = 0 /\ todo # <<>>
           /\ busy' = [busy EXCEPT ![w] = Head(todo)] /\ todo' = Tail(todo) /\ UNCHANGED <<file, failed, exit>>
WriteTime(w) == /\ exit = "none" /\ busy[w] # 0 /\ busy[w] \notin BAD /\ Len(file[busy[w]]) < Times
                /\ file' = [file EXCEPT ![busy[w]] = Append(@, Len(@) + 1)] /\ UNCHANGED <<todo, busy, failed, exit>>
Done(w) == /\ exit = "none" /\ busy[w] # 0 /\ Len(file[busy[w]]) = Times
           /\ busy' = [busy EXCEPT ![w] = 0] /\ UNCHANGED <<todo, file, failed, exit>>
FailDay(w) == /\ exit = "none" /\ busy[w] \in BAD
              /\ failed' = failed \cup {busy[w]} /\ busy' = [busy EXCEPT ![w] = 0] /\ UNCHANGED <<todo, file, exit>>
\* the first failure may end the command before the other days are done
Abort == exit = "none" /\ failed # {} /\ exit' = "error" /\ UNCHANGED <<todo, busy, file, failed>>
Finish == /\ exit = "none" /\ failed = {} /\ todo = <<>> /\ \A w \in 1..WORKERS : busy[w] = 0
          /\ exit' = "ok" /\ UNCHANGED <<todo, busy, file, failed>>
Next == Abort \/ Finish \/ \E w \in 1..WORKERS : Take(w) \/ WriteTime(w) \/ Done(w) \/ FailDay(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Whole == [n \in 1..Times |-> n]
\* whatever the order: all files as if written one after the other, or an error
Right == exit = "ok" => /\ \A d \in 1..DAYS : file[d] = Whole
                        /\ BAD \cap (1..DAYS) = {}
OneEach == \A v, w \in 1..WORKERS : v # w /\ busy[v] # 0 => busy[v] # busy[w]
InOrder == \A d \in 1..DAYS : file[d] = [n \in 1..Len(file[d]) |-> n]
NoneForBad == \A d \in BAD : d \in 1..DAYS => file[d] = <<>>
Ends == <>(exit # "none")
=============================================================================
