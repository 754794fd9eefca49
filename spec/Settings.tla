------------------------------ MODULE Settings ------------------------------
(* Which configurations are accepted, and what they mean once loaded.        *)
(*                                                                           *)
(* A value is a tagged tuple:                                                *)
(*   <<"absent">> <<"null">> <<"bool", b>> <<"int", n>> <<"str", s>>         *)
(*   <<"num", s>>      a number that is not an integer, as text              *)
(*   <<"ints", n...>>  <<"strs", s...>>  lists                               *)
(*   <<"box", west, south, east, north>>  thousandths of degrees             *)
(*   <<"date", y, m, d, H, M, S, form>>   form is the way it is written      *)
(*   <<"at", place>>   a file or folder: "home" is ~/home, "relative" is     *)
(*                     relative to the current folder, "gone" is not there   *)
EXTENDS Schedule, FiniteSets, TLC

Calendars == {"standard", "gregorian", "proleptic_gregorian", "noleap", "365_day", "360_day", "julian", "all_leap", "366_day"}
DateNames == {"preprocess_start_date", "preprocess_end_date", "tracking_start_date", "tracking_end_date", "tagging_start_date", "tagging_end_date"}
Periods == {<<"preprocess_start_date", "preprocess_end_date">>, <<"tracking_start_date", "tracking_end_date">>, <<"tagging_start_date", "tagging_end_date">>}
Frequencies == {"input_frequency", "output_frequency"}

S(x) == <<"str", x>>
D(y, m, d, h) == <<"date", y, m, d, h, 0, 0, "THM">>
Base ==
  [filename_template |-> S("raw_{variable}.nc"), preprocessed_data_folder |-> <<"at", "there">>, calendar |-> <<"absent">>,
   tracking_direction |-> S("backward"), tagging_region |-> <<"at", "region.nc">>, tracking_domain |-> <<"null">>, output_folder |-> <<"at", "there">>,
   preprocess_start_date |-> D(2021, 7, 1, 0), preprocess_end_date |-> D(2021, 7, 15, 23), parallel_preprocess |-> <<"absent">>, parallel_processes |-> <<"absent">>,
   tracking_start_date |-> D(2021, 7, 1, 0), tracking_end_date |-> D(2021, 7, 15, 23), tagging_start_date |-> D(2021, 7, 13, 0), tagging_end_date |-> D(2021, 7, 14, 23),
   input_frequency |-> S("1h"), timestep |-> <<"int", 600>>, output_frequency |-> S("1d"), level_type |-> S("model_levels"), levels |-> <<"ints", 20, 40, 137>>,
   restart |-> <<"bool", FALSE>>, periodic_boundary |-> <<"bool", TRUE>>, kvf |-> <<"int", 3>>, level_layer_boundary |-> <<"absent">>,
   pressure_boundary_factor |-> <<"absent">>, pressure_boundary_offset |-> <<"absent">>, log_level |-> <<"absent">>]
Names == DOMAIN Base

\* the current spelling of deprecated frequencies
Respell ==
  ("1H" :> "1h" @@ "H" :> "h" @@ "24H" :> "24h" @@ "15T" :> "15min" @@ "15t" :> "15min" @@ "T" :> "min" @@ "30S" :> "30s" @@ "S" :> "s" @@ "500L" :> "500ms"
   @@ "L" :> "ms" @@ "7U" :> "7us" @@ "U" :> "us" @@ "100N" :> "100ns" @@ "n" :> "ns" @@ "2BH" :> "2bh" @@ "BH" :> "bh" @@ "3CBH" :> "3cbh" @@ "CBH" :> "cbh" @@ "1d" :> "1D" @@ "d" :> "D")
Current == {"1h", "h", "3h", "15min", "min", "30s", "s", "500ms", "us", "ns", "2bh", "3cbh", "1D", "D", "MS", "2MS", "ME", "W", "YS", "QS", "1h30min", "B"}
Spelled(f) == IF f \in DOMAIN Respell THEN Respell[f] ELSE f

Nothing == {<<"absent">>, <<"null">>}
Bools == {<<"bool", TRUE>>, <<"bool", FALSE>>}
Boxes == {<<"box", 0, 50000, 10000, 55000>>, <<"box", -180000, -80000, 180000, 80000>>, <<"box", 170000, -20500, -170000, 33250>>, <<"box", 180000, 0, -180000, 1>>,
          <<"box", 5000, 1000, 5000, 2000>>, <<"box", -10000, 50000, -20000, 50001>>,
          \* not boxes
          <<"box", 0, 55000, 10000, 50000>>, <<"box", 0, 50000, 10000, 50000>>, <<"box", -180001, 0, 10000, 50000>>, <<"box", 0, 0, 180001, 50000>>,
          <<"box", 0, -80001, 10000, 50000>>, <<"box", 0, 0, 10000, 80001>>, <<"box", 0, 0, 360000, 10000>>, <<"box", 200000, 0, 220000, 10000>>, <<"box", -200000, 0, 0, 10000>>,
          <<"box", 0, 80001, 10000, 90000>>, <<"box", 0, -90000, 10000, -80001>>}
Dates == {D(2021, 7, 1, 0), D(2021, 7, 14, 0), <<"date", 2021, 7, 15, 23, 59, 59, "THMS">>, D(2021, 2, 28, 6), D(2021, 2, 29, 0), D(2020, 2, 29, 12), D(2021, 2, 30, 0), D(2022, 1, 31, 18),
          D(1900, 2, 29, 0), D(850, 3, 1, 0), D(2100, 12, 30, 23), <<"date", 2021, 7, 1, 0, 0, 1, "THMS">>, <<"date", 2021, 8, 31, 5, 7, 0, "THM">>, <<"date", 1849, 12, 29, 23, 10, 11, "THMS">>}
NoDates == {<<"date", 2021, 7, 14, 0, 0, 0, "day">>, <<"date", 2021, 7, 14, 0, 0, 0, "space">>, <<"date", 2021, 7, 14, 0, 0, 0, "zone">>, <<"date", 2021, 7, 14, 0, 0, 0, "slash">>,
            D(2021, 13, 1, 0), D(2021, 0, 1, 0), D(2021, 7, 0, 0), D(2021, 7, 32, 0), D(2021, 7, 14, 24), <<"date", 2021, 7, 14, 0, 60, 0, "THM">>, S("tomorrow"), S(""), <<"int", 2021>>}

\* the values explored for each setting
Values(s) ==
  CASE s = "filename_template" -> {S("raw_{variable}.nc"), S("{year}/{month:02}/x_{levtype}_{variable}.nc"), S("a: b, #c 'd' \"e\"")} \cup Nothing \cup {<<"int", 5>>}
    [] s = "preprocessed_data_folder" -> {<<"at", p>> : p \in {"there", "new", "deep/er", "home", "relative"}} \cup {S("https://example.org/data"), S("http://example.org/dods/a.nc")} \cup Nothing \cup {<<"int", 5>>}
    [] s = "output_folder" -> {<<"at", p>> : p \in {"there", "new2", "deep/est/out", "home", "relative"}} \cup Nothing \cup {<<"int", 5>>}
    [] s = "calendar" -> {S(c) : c \in Calendars} \cup {<<"absent">>} \cup {<<"null">>, S("Standard"), S("gregorian_365"), S(""), S("360"), <<"int", 360>>}
    [] s = "tracking_direction" -> {S("forward"), S("backward")} \cup Nothing \cup {S("Forward"), S("backwards"), S("both"), S(""), <<"bool", TRUE>>}
    [] s = "tagging_region" -> {<<"at", "region.nc">>, <<"at", "gone.nc">>, <<"at", "there">>, S("0, 50, 10, 55"), S("everywhere"), <<"ints", 0, 50, 10>>, <<"ints", 0, 50, 10, 55, 60>>, <<"int", 5>>} \cup Nothing \cup Boxes
    [] s = "tracking_domain" -> {S("everywhere"), <<"at", "region.nc">>, <<"ints", 0, 50, 10>>, <<"ints", 0, 50, 10, 55, 60>>, <<"int", 5>>} \cup Nothing \cup Boxes
    [] s \in DateNames -> Dates \cup NoDates \cup Nothing
    [] s = "parallel_preprocess" -> Bools \cup Nothing \cup {S("perhaps"), <<"int", 2>>}
    [] s = "parallel_processes" -> {<<"int", 1>>, <<"int", 12>>} \cup Nothing \cup {S("four"), <<"num", "2.5">>}
    [] s \in Frequencies -> {S(f) : f \in (DOMAIN Respell) \cup Current} \cup Nothing \cup {<<"int", 5>>}
    [] s = "timestep" -> {<<"int", n>> : n \in {1, 60, 600, 3600, 86400}} \cup Nothing \cup {<<"int", 0>>, <<"int", -1>>, <<"int", -600>>, <<"num", "600.5">>, S("ten minutes")}
    [] s = "level_type" -> {S("model_levels"), S("pressure_levels")} \cup Nothing \cup {S("model"), S("Pressure_levels"), S("")}
    [] s = "levels" -> {<<"ints", 137>>, <<"ints", 20, 40, 137>>, <<"ints", 850, 500, 1000>>, S("all"), S("All")} \cup Nothing \cup {S("ALL"), S("some"), <<"int", 5>>, <<"strs", "a", "b">>, <<"strs", "all">>}
    [] s \in {"restart", "periodic_boundary"} -> Bools \cup Nothing \cup {S("perhaps"), <<"int", 2>>}
    [] s = "kvf" -> {<<"int", 3>>, <<"int", 0>>, <<"num", "2.5">>, <<"num", "0.001">>} \cup Nothing \cup {S("three")}
    [] s = "level_layer_boundary" -> {<<"int", 111>>, <<"int", 96>>, <<"int", 1>>, <<"absent">>} \cup {<<"null">>, <<"num", "110.5">>, S("top")}
    [] s = "pressure_boundary_factor" -> {<<"num", "0.72878581">>, <<"num", "0.5">>, <<"int", 1>>, <<"absent">>} \cup {<<"null">>, S("half")}
    [] s = "pressure_boundary_offset" -> {<<"num", "7438.803223">>, <<"num", "-12.25">>, <<"int", 0>>, <<"absent">>} \cup {<<"null">>, S("none")}
    [] s = "log_level" -> {<<"absent">>, S("low")}

IsBox(v) == /\ v[1] = "box" /\ v[3] < v[5]
            /\ \A k \in {2, 4} : -180000 <= v[k] /\ v[k] <= 180000
            /\ \A k \in {3, 5} : -80000 <= v[k] /\ v[k] <= 80000
IsDate(cal, v) == /\ v[1] = "date" /\ v[8] \in {"THM", "THMS"}
                  /\ v[3] \in 1..12 /\ v[4] \in 1..Days(cal, v[2], v[3])
                  /\ v[5] \in 0..23 /\ v[6] \in 0..59 /\ v[7] \in 0..59
NotAfter(a, b) == \E k \in 2..7 : /\ \A q \in 2..(k - 1) : a[q] = b[q]
                                  /\ a[k] < b[k] \/ (k = 7 /\ a[k] = b[k])

\* a value that fits its setting, whatever the others are (dates need the calendar)
Fits(s, v) ==
  CASE s \in {"filename_template"} -> v[1] = "str"
    [] s = "preprocessed_data_folder" -> v[1] \in {"at", "str"}
    [] s = "output_folder" -> v[1] = "at"
    [] s = "calendar" -> v = <<"absent">> \/ (v[1] = "str" /\ v[2] \in Calendars)
    [] s = "tracking_direction" -> v \in {S("forward"), S("backward")}
    [] s = "tagging_region" -> v = <<"at", "region.nc">> \/ IsBox(v)
    [] s = "tracking_domain" -> v \in Nothing \/ IsBox(v)
    [] s \in DateNames -> v[1] = "date"
    [] s = "parallel_preprocess" -> v = <<"absent">> \/ v[1] = "bool"
    [] s = "parallel_processes" -> v \in Nothing \/ v[1] = "int"
    [] s \in Frequencies -> v[1] = "str"
    [] s = "timestep" -> v[1] = "int" /\ v[2] > 0
    [] s = "level_type" -> v \in {S("model_levels"), S("pressure_levels")}
    [] s = "levels" -> v[1] = "ints" \/ v \in {S("all"), S("All")}
    [] s \in {"restart", "periodic_boundary"} -> v[1] = "bool"
    [] s = "kvf" -> v[1] \in {"int", "num"}
    [] s = "level_layer_boundary" -> v = <<"absent">> \/ v[1] = "int"
    [] s \in {"pressure_boundary_factor", "pressure_boundary_offset"} -> v = <<"absent">> \/ v[1] \in {"int", "num"}
    [] s = "log_level" -> TRUE

CalendarOf(c) == IF c["calendar"] = <<"absent">> THEN "standard" ELSE c["calendar"][2]
Accepted(c) == /\ \A s \in Names : Fits(s, c[s])
               /\ \A s \in DateNames : IsDate(CalendarOf(c), c[s])
               /\ \A p \in Periods : NotAfter(c[p[1]], c[p[2]])

\* what an accepted setting is once loaded
Number(v) == IF v[1] = "int" THEN <<"num", ToString(v[2]) \o ".0">> ELSE v
Meaning(s, v) ==
  CASE s = "calendar" /\ v = <<"absent">> -> S("standard")
    [] s \in {"tracking_domain", "parallel_processes"} /\ v = <<"absent">> -> <<"null">>
    [] s = "parallel_preprocess" /\ v = <<"absent">> -> <<"bool", FALSE>>
    [] s \in DateNames -> SubSeq(v, 1, 7)
    [] s \in Frequencies -> S(Spelled(v[2]))
    [] s = "kvf" -> Number(v)
    [] s = "level_layer_boundary" /\ v = <<"absent">> -> <<"int", 111>>
    [] s = "pressure_boundary_factor" -> IF v = <<"absent">> THEN <<"num", "0.72878581">> ELSE Number(v)
    [] s = "pressure_boundary_offset" -> IF v = <<"absent">> THEN <<"num", "7438.803223">> ELSE Number(v)
    [] OTHER -> v
Known == Names \ {"log_level"}
Loaded(c) == [s \in Known |-> Meaning(s, c[s])]

With(over) == [s \in Names |-> IF \E k \in 1..Len(over) : over[k][1] = s THEN over[CHOOSE k \in 1..Len(over) : over[k][1] = s][2] ELSE Base[s]]
=============================================================================
