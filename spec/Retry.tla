------------------------------- MODULE Retry --------------------------------
(* Reading a file that may fail: the known spurious error is retried after a *)
(* pause, nine attempts in all; any other error ends the run.                *)
EXTENDS Integers, Sequences
ATTEMPTS == 9
\* a read in progress is the number of attempts made; what follows an outcome of attempt n
AfterAttempt(n, outcome) ==
  CASE outcome = "ok" -> "data"
    [] outcome = "spurious" -> IF n < ATTEMPTS THEN "again" ELSE "error"
    [] OTHER -> "error"
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* pause after attempt n, in ms: half a second, doubling, stretched at random by less than twice
PauseOk(n, ms) == 500 * Pow2(n - 1) <= ms /\ ms < 1000 * Pow2(n - 1)
=============================================================================
