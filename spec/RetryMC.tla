------------------------------ MODULE RetryMC -------------------------------
(* A run of several reads, each attempt with any outcome.                    *)
EXTENDS Retry
CONSTANT READS
VARIABLES read, n, state, waited
vars == <<read, n, state, waited>>
Init == read = 1 /\ n = 0 /\ state = "reading" /\ waited = 0
Try == /\ state = "reading" /\ n' = n + 1
       /\ \E o \in {"ok", "spurious", "other"} :
            LET a == AfterAttempt(n + 1, o) IN
            CASE a = "data" -> state' = (IF read = READS THEN "done" ELSE "next") /\ UNCHANGED waited
              [] a = "again" -> state' = "pause" /\ UNCHANGED waited
              [] a = "error" -> state' = "failed" /\ UNCHANGED waited
       /\ UNCHANGED read
Pause == /\ state = "pause" /\ state' = "reading" /\ waited' = waited + 1000 * Pow2(n - 1) /\ UNCHANGED <<read, n>>
Proceed == state = "next" /\ read' = read + 1 /\ n' = 0 /\ state' = "reading" /\ waited' = 0
Next == Try \/ Pause \/ Proceed
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NotForever == n <= ATTEMPTS /\ waited <= 255000
EachReadAnew == [][read' # read => n' = 0]_vars
Ends == <>(state \in {"done", "failed"})
=============================================================================
