-------------------------------- MODULE Cli ---------------------------------
(* What the commands of the command line do with a working folder: raw data  *)
(* of some sources, a folder of preprocessed data, a folder of results, and  *)
(* configuration files.                                                      *)
(* A command is [do, arg, cfg, place, debug]: cfg says what is wrong with    *)
(* the configuration file, place where it lies.                              *)
EXTENDS Integers, Sequences, FiniteSets
Sources == {"era5", "cmip", "arco-era5"}
Directions == {"forward", "backward"}
Places == {"own", "output", "pre", "relative", "spaced name"}
\* "order": start after end; "lost": a required setting is missing; "broken": not a mapping; "region": tagging region is not there;
\* "gone": no such file; "beyond": asks for times there is no data of; "again": goes on from the first output, which must be there
TrackCfgs == {"good", "again", "order", "lost", "broken", "region", "gone", "beyond"}
PrepCfgs == {"good", "order", "lost", "broken", "gone", "beyond"}
Commands == [do : {"track"}, arg : Directions, cfg : TrackCfgs, place : Places, debug : BOOLEAN]
       \cup [do : {"preprocess"}, arg : Sources, cfg : PrepCfgs, place : Places, debug : BOOLEAN]
       \cup [do : {"removed"}, arg : {"backtrack", "forwardtrack"}, cfg : {"good", "none"}, place : {"own"}, debug : BOOLEAN]
       \cup [do : {"unknown"}, arg : {"trak", "preprocess era6", "download nothing"}, cfg : {"good"}, place : {"own"}, debug : {FALSE}]
       \cup [do : {"show"}, arg : {"--help", "--version"}, cfg : {"good"}, place : {"own"}, debug : {FALSE}]
\* a state of the folder: [raw, pre, forward, backward]; raw: sources there is data of, pre: source of the preprocessed data or "none",
\* forward and backward: whether results of that direction are there
Valid(x) == x.cfg \in {"good", "beyond", "again"}
Succeeds(s, x) ==
  CASE x.do = "track" -> s.pre # "none" /\ (x.cfg = "good" \/ (x.cfg = "again" /\ s[x.arg]))
    [] x.do = "preprocess" -> x.cfg = "good" /\ x.arg \in s.raw
    [] x.do = "show" -> TRUE
    [] OTHER -> FALSE
\* a run that breaks down on its way may leave a part of its results
Partial(s, x) == ~Succeeds(s, x) /\ Valid(x) /\ x.do \in {"track", "preprocess"}
After(s, x) ==
  IF ~Succeeds(s, x) THEN s
  ELSE CASE x.do = "track" -> [s EXCEPT ![x.arg] = TRUE]
         [] x.do = "preprocess" -> [s EXCEPT !.pre = x.arg]
         [] OTHER -> s
=============================================================================
