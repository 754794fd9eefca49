---------------------------- MODULE CalendarTrace ---------------------------
(* Preprocessing data in one calendar with another one configured.           *)
EXTENDS Calendars, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, verdict, phase
vars == <<c, verdict, phase>>
C == Cases[c]
Told == C.warnings > 0
Judge ==
  IF ~C.named /\ Told THEN "not-named"
  ELSE IF MustWarn(C.source, C.data, C.config) /\ ~Told THEN "not-reported"
  ELSE IF ~MayWarn(C.source, C.data, C.config) /\ Told THEN "reported-without-reason"
  ELSE IF MustRefuse(C.source, C.data, C.config) /\ (C.ok \/ C.files > 0) THEN "not-refused"
  ELSE IF MustAccept(C.source, C.data, C.config) /\ (~C.ok \/ C.files = 0) THEN "refused"
  ELSE ""
Init == c = 1 /\ verdict = <<>> /\ phase = "run"
Step == /\ phase = "run" /\ c <= Len(Cases)
        /\ verdict' = Append(verdict, [run |-> C.id, ok |-> Judge = "", bad |-> Judge, mismatch |-> MustRefuse(C.source, C.data, C.config)])
        /\ c' = c + 1
        /\ phase' = IF c' > Len(Cases) THEN "done" ELSE "run"
Write == phase = "done" /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written" /\ UNCHANGED <<c, verdict>>
Next == Step \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
