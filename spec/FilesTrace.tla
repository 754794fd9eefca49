----------------------------- MODULE FilesTrace -----------------------------
(* What a file says about itself: the quantities it holds with their names,  *)
(* units and dimensions, the cells with their bounds, the calendar, and      *)
(* where it comes from.  Texts are sequences of words, positions in 1e-6     *)
(* degrees.                                                                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, f, bad, n, verdict
vars == <<c, f, bad, n, verdict>>
C == Cases[c]
F == C.files[f]
Input == C.kind = "input"
Fwd == C.dir = "forward"

(* ---- quantities ---- *)
KG == <<"kg", "m-2">>
LevelFlux == {"fx_upper", "fx_lower", "fy_upper", "fy_lower"}
Stores == {"s_upper", "s_lower"}
SurfaceFlux == {"evap", "precip"}
Restart == {"s_track_upper_restart", "s_track_lower_restart"}
Sums == {"losses", "gains"} \cup (IF Fwd THEN {"p_track_upper", "p_track_lower", "tagged_evap"} ELSE {"e_track", "tagged_precip"})
Fields == IF Input THEN LevelFlux \cup Stores \cup SurfaceFlux ELSE Restart \cup Sums
Has(w, s) == \E k \in 1..Len(s) : s[k] = w
UnitsOk(v, u) ==
  CASE v \in LevelFlux -> u = <<"kg", "m-1", "s-1">>
    [] v \in SurfaceFlux -> u = <<"kg", "m-2", "s-1">>
    [] v \in Stores \cup Restart -> u = KG
    [] v \in Sums -> Len(u) > 2 /\ SubSeq(u, 1, 2) = KG /\ Has("accumulated", u)
    [] v \in {"latitude", "latitude_bnds"} -> u = <<"degrees_north">>
    [] v \in {"longitude", "longitude_bnds"} -> u = <<"degrees_east">>
\* the name says which layer, which direction, and what
Says(v) ==
  (IF v \in {"fx_upper", "fy_upper", "s_upper", "s_track_upper_restart", "p_track_upper"} THEN {"upper"} ELSE {})
  \cup (IF v \in {"fx_lower", "fy_lower", "s_lower", "s_track_lower_restart", "p_track_lower"} THEN {"lower"} ELSE {})
  \cup (IF v \in {"fx_upper", "fx_lower"} THEN {"eastward"} ELSE {}) \cup (IF v \in {"fy_upper", "fy_lower"} THEN {"northward"} ELSE {})
  \cup (CASE v \in LevelFlux -> {"flux"} [] v = "evap" -> {"surface", "into"} [] v = "precip" -> {"surface", "from"}
          [] v \in Stores -> {"moisture"} [] v \in Restart -> {"tracked", "storage"} [] v = "e_track" -> {"tracked", "evaporation"}
          [] v \in {"p_track_upper", "p_track_lower"} -> {"tracked", "precipitation"} [] v = "tagged_evap" -> {"tagged", "evaporation"}
          [] v = "tagged_precip" -> {"tagged", "precipitation"} [] v = "losses" -> {"lost"} [] v = "gains" -> {"gained"}
          [] v \in {"latitude", "latitude_bnds"} -> {"latitude"} [] v \in {"longitude", "longitude_bnds"} -> {"longitude"})
NameOk(v, w) == \A x \in Says(v) : Has(x, w)

(* ---- cells ---- *)
Near(x, y) == x - y \in -40..40
Turn(x) == x % 360000000
NearTurn(x, y) == Near(Turn(x), Turn(y)) \/ Near(Turn(x) + 360000000, Turn(y)) \/ Near(Turn(x), Turn(y) + 360000000)
Sides(x, d) == <<x - d \div 2, x + d \div 2>>
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] - b[i] \in -1..1
\* whichever comes first
Bounds(s, d, b, near(_, _)) == /\ Len(b) = Len(s)
   /\ \A i \in 1..Len(s) : LET e == Sides(s[i], d) IN Len(b[i]) = 2 /\ ((near(b[i][1], e[1]) /\ near(b[i][2], e[2])) \/ (near(b[i][1], e[2]) /\ near(b[i][2], e[1])))

(* ---- where from ---- *)
Part(s, w) == \E k \in 0..(Len(w) - Len(s)) : SubSeq(w, k + 1, k + Len(s)) = s
Kin(cal) == CASE cal = "gregorian" -> "standard" [] cal = "365_day" -> "noleap" [] cal = "366_day" -> "all_leap" [] OTHER -> cal

Note(clause, what, m, ob) == <<[run |-> C.id, clause |-> clause, what |-> what, file |-> F.name, model |-> m, observed |-> ob]>>
Ok(b, clause, what, m, ob) == IF b THEN <<>> ELSE Note(clause, what, m, ob)
Var(v) == LET S == {k \in 1..Len(F.vars) : F.vars[k].name = v} IN IF S = {} THEN [name |-> "", dims |-> <<>>, units |-> <<>>, long |-> <<>>] ELSE F.vars[CHOOSE k \in S : TRUE]
JudgeVar(v, dims) ==
  LET x == Var(v) IN
  IF x.name = "" THEN Note("variable", v, dims, <<>>)
  ELSE Ok(x.dims = dims, "dimensions", v, dims, x.dims) \o Ok(UnitsOk(v, x.units), "units", v, <<>>, x.units) \o Ok(NameOk(v, x.long), "name", v, SetToSeq(Says(v)), x.long)
Judge ==
  FoldLeft(LAMBDA acc, v: acc \o JudgeVar(v, <<"time", "latitude", "longitude">>), <<>>, SetToSeq(Fields))
  \o FoldLeft(LAMBDA acc, v: acc \o JudgeVar(v, <<v>>), <<>>, <<"latitude", "longitude">>)
  \o FoldLeft(LAMBDA acc, v: acc \o JudgeVar(v, <<(IF v = "latitude_bnds" THEN "latitude" ELSE "longitude"), "bnds">>), <<>>, <<"latitude_bnds", "longitude_bnds">>)
  \o Ok(Cardinality({Var(v).long : v \in Fields}) = Cardinality(Fields), "names differ", "", <<>>, <<>>)
  \o Ok(Same(F.lat, C.lat), "latitudes", "", C.lat, F.lat) \o Ok(Same(F.lon, C.lon), "longitudes", "", C.lon, F.lon)
  \o Ok(Bounds(C.lat, C.dlat, F.latb, Near), "bounds", "latitude", C.lat, F.latb)
  \o Ok(Bounds(C.lon, C.dlon, F.lonb, NearTurn), "bounds", "longitude", C.lon, F.lonb)
  \o Ok(Kin(F.calendar) = Kin(C.calendar), "calendar", "", Kin(C.calendar), F.calendar)
  \o (IF C.silent THEN <<>> ELSE
      Ok(Len(F.conventions) > 0, "conventions", "", <<>>, F.conventions)
      \o Ok(Len(F.title) > 0, "title", "", <<>>, F.title)
      \o Ok(\E k \in 1..(Len(F.history) - 1) : F.history[k] = "version" /\ F.history[k+1] = C.version, "history: version", "", <<C.version>>, F.history)
      \o Ok(Part(C.history, F.history), "history of the data", "", C.history, F.history)
      \o Ok(Part(C.source, F.source), "source of the data", "", C.source, F.source))

Init == c = 1 /\ f = 1 /\ bad = <<>> /\ n = 0 /\ verdict = <<>>
Read == /\ c <= Len(Cases) /\ f <= Len(C.files)
        /\ bad' = bad \o Judge /\ n' = n + Cardinality(Fields)
        /\ f' = f + 1 /\ UNCHANGED <<c, verdict>>
Finish == /\ c <= Len(Cases) /\ f > Len(C.files)
          /\ verdict' = Append(verdict, [run |-> C.id, ok |-> bad = <<>> /\ Len(C.files) > 0, files |-> Len(C.files), quantities |-> n,
                                         bad |-> IF Len(C.files) = 0 THEN <<[run |-> C.id, clause |-> "no files", what |-> "", file |-> "", model |-> <<>>, observed |-> <<>>]>> ELSE SubSeq(bad, 1, IF Len(bad) < 4 THEN Len(bad) ELSE 4)])
          /\ c' = c + 1 /\ f' = 1 /\ bad' = <<>> /\ n' = 0
Write == c = Len(Cases) + 1 /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ c' = c + 1 /\ UNCHANGED <<f, bad, n, verdict>>
Next == Read \/ Finish \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
