---------------------------- MODULE SettingsTrace ---------------------------
(* Recorded loads of configurations, their exports and the attributes of     *)
(* outputs, against Settings.                                                *)
EXTENDS Settings, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, phase, verdict
vars == <<c, phase, verdict>>
R == Cases[c]
Note(clause, m, ob) == <<[clause |-> clause, model |-> m, observed |-> ob]>>
Expect(clause, m, ob) == IF m = ob THEN <<>> ELSE Note(clause, m, ob)
AsRec(pairs) == [s \in {pairs[n][1] : n \in 1..Len(pairs)} |-> pairs[CHOOSE n \in 1..Len(pairs) : pairs[n][1] = s][2]]
\* every setting of a loaded configuration
Same(clause, want, pairs) ==
  LET got == AsRec(pairs)
      off == {s \in DOMAIN want : IF s \in DOMAIN got THEN got[s] # want[s] ELSE TRUE}
  IN IF off = {} THEN <<>> ELSE LET s == CHOOSE s \in off : TRUE IN Note(clause \o " " \o s, want[s], IF s \in DOMAIN got THEN got[s] ELSE <<"absent">>)
Folders(l) == {l[s][2] : s \in {x \in {"preprocessed_data_folder", "output_folder"} : l[x][1] = "at"}}
JudgeLoad ==
  LET want == With(R.over)  ok == Accepted(want) IN
  IF ~ok THEN Expect("accepted", FALSE, R.accepted)
  ELSE IF ~R.accepted THEN Note("accepted", TRUE, R.error)
  ELSE LET l == Loaded(want) IN
       Same("loaded", l, R.loaded)
       \o (IF R.how = "load" THEN
             Expect("folders that are not there", {}, {f \in Folders(l) : f \notin {R.folders[n] : n \in 1..Len(R.folders)}})
             \o Same("exported as text", l, R.fromstring) \o Same("exported to a file", l, R.fromfile)
           ELSE <<>>)
\* an output of a run: what it says, and what the run was asked to do
JudgeOutput == Same("attribute", AsRec(R.given), R.attribute)
               \o Expect("title", "WAM2Layers " \o R.direction \o "tracking output file", R.title)
Judge == IF R.how = "output" THEN JudgeOutput ELSE JudgeLoad
Init == c = 1 /\ phase = "run" /\ verdict = <<>>
Step == /\ phase = "run" /\ c <= Len(Cases)
        /\ LET b == Judge IN verdict' = IF b = <<>> THEN verdict ELSE Append(verdict, [run |-> R.id, bad |-> b])
        /\ c' = c + 1 /\ UNCHANGED phase
Write == phase = "run" /\ c > Len(Cases) /\ JsonSerialize(IOEnv.VF_OUT, <<[run |-> "all", bad |-> <<>>, judged |-> c - 1, accepted |-> Cardinality({n \in 1..Len(Cases) : Cases[n].accepted})]>> \o verdict) /\ phase' = "written" /\ UNCHANGED <<c, verdict>>
Next == Step \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
