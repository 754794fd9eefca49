---------------------------- MODULE DownloadGen -----------------------------
(* Situations of a download: what is served, what is there already, how the  *)
(* data is named, which request fails and how.                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
VARIABLES phase
\* an error may come with a page, with a message like those the server gives in
\* good times, or with the very content that was asked for (of an older cache)
Faults == {"404", "500", "403", "html", "refused", "cut", "slow", "500 message", "503 content"}
Ways == {"plain", "gzip", "redirect", "chunked"}
Dirs == {"absent", "empty", "full", "file", "link", "yaml", "nc", "older", "partial", "hidden", "deep", "emptied"}
Dois == {"plain", "https", "dx", "doi:", "upper", "unversioned", "cli"}
BadDois == {"zenodo", "other", "none"}
Plain == [cat |-> 2, list |-> 1, dir |-> "absent", doi |-> "plain", way |-> "plain", fault |-> "none", at |-> "nothing", nested |-> FALSE]
Targets == {"articles", "articles again", "catalog", "cat1", "cat2", "list1"}
\* a page instead of a file is data as far as one can tell
Sensible(f, t) == (f = "html" => t \in {"articles", "catalog", "articles again"}) /\ (f = "cut" => t \in {"cat1", "cat2", "list1"})
Cases ==
       {[Plain EXCEPT !.cat = a, !.list = b, !.way = w, !.nested = n] : a \in 0..3, b \in 0..2, w \in Ways, n \in BOOLEAN}
  \cup {[Plain EXCEPT !.dir = d, !.doi = i] : d \in Dirs, i \in Dois \cup BadDois}
  \cup {[Plain EXCEPT !.fault = f, !.at = t, !.doi = i] : f \in Faults, t \in Targets, i \in {"plain", "cli"}}
  \cup {[Plain EXCEPT !.fault = f, !.at = t, !.dir = d] : f \in {"404", "refused"}, t \in Targets, d \in Dirs}
  \cup {[Plain EXCEPT !.fault = f, !.at = t, !.way = w] : f \in {"404", "500", "cut"}, t \in {"cat1", "cat2", "list1"}, w \in Ways}
Real == {x \in Cases : x.fault = "none" \/ Sensible(x.fault, x.at)}
Init == phase = "run"
Write == phase = "run" /\ JsonSerialize(IOEnv.VF_OUT, SetToSeq(Real)) /\ phase' = "written"
Next == Write
Spec == Init /\ [][Next]_phase
=============================================================================
