--------------------------- MODULE ScheduleTrace ---------------------------
(* Files written by runs of the program against the schedule.  Each run has  *)
(* a probe cell that tags one unit per step, so an output tells how many     *)
(* steps it covers.  The order of the files is that of the run.              *)
EXTENDS Schedule, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, t, steps, prev, o, phase, bad, verdict
vars == <<c, t, steps, prev, o, phase, bad, verdict>>
R == Cases[c]
F == R.files[o]
S(s) == Stamp(R.calendar, R.base, s)
Note(clause, m, ob) == <<[run |-> R.id, clause |-> clause, t |-> t, model |-> m, observed |-> ob]>>
Expect(clause, m, ob) == IF m = ob THEN <<>> ELSE Note(clause, m, ob)

Init == c = 1 /\ t = 0 /\ steps = 0 /\ prev = 0 /\ o = 1 /\ phase = "start" /\ bad = <<>> /\ verdict = <<>>
Start == /\ phase = "start" /\ c <= Len(Cases)
         /\ t' = FirstTime(R) /\ prev' = FirstTime(R) /\ steps' = 0 /\ o' = 1 /\ bad' = <<>>
         /\ phase' = "run" /\ UNCHANGED <<c, verdict>>
Step == /\ phase = "run" /\ CanStep(R, t)
        /\ t' = After(R, t) /\ steps' = steps + 1
        /\ phase' = IF Due(R, t') THEN "emit" ELSE "run"
        /\ UNCHANGED <<c, prev, o, bad, verdict>>
Emit == /\ phase = "emit" /\ o <= Len(R.files)
        /\ bad' = bad \o Expect("file name", SubSeq(S(t), 1, 5), F.name)
                      \o Expect("time", S(t), F.time)
                      \o Expect("time bounds", <<S(prev), S(t)>>, F.bounds)
                      \o Expect("steps covered", steps, F.steps)
                      \o Expect("kind of run", R.dir, F.kind)
        /\ o' = o + 1 /\ prev' = t /\ steps' = 0 /\ phase' = "run"
        /\ UNCHANGED <<c, t, verdict>>
Missing == /\ phase = "emit" /\ o > Len(R.files)
           /\ bad' = bad \o Note("missing output", S(t), <<>>) /\ phase' = "end"
           /\ UNCHANGED <<c, t, steps, prev, o, verdict>>
Complete == /\ phase = "run" /\ ~CanStep(R, t)
            /\ bad' = bad \o (IF o > Len(R.files) THEN <<>> ELSE Note("unexpected output", <<>>, F.name))
                          \o Expect("other files", 0, R.other)
            /\ phase' = "end" /\ UNCHANGED <<c, t, steps, prev, o, verdict>>
Finish == /\ phase = "end"
          /\ verdict' = Append(verdict, [run |-> R.id, ok |-> bad = <<>>, bad |-> IF Len(bad) > 3 THEN SubSeq(bad, 1, 3) ELSE bad])
          /\ c' = c + 1 /\ phase' = IF c' > Len(Cases) THEN "done" ELSE "start"
          /\ UNCHANGED <<t, steps, prev, o, bad>>
Write == phase = "done" /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written" /\ UNCHANGED <<c, t, steps, prev, o, bad, verdict>>
Next == Start \/ Step \/ Emit \/ Missing \/ Complete \/ Finish \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
