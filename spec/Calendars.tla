----------------------------- MODULE Calendars ------------------------------
(* Names of calendars, and when two of them are the same.                    *)
EXTENDS Schedule

Known == {"standard", "gregorian", "proleptic_gregorian", "julian", "noleap", "365_day", "all_leap", "366_day", "360_day"}
Plain(cal) ==
  CASE cal = "gregorian" -> "standard"
    [] cal = "365_day" -> "noleap"
    [] cal = "366_day" -> "all_leap"
    [] OTHER -> cal
Same(a, b) == Plain(a) = Plain(b)
\* the same since 1582; whether this is called a mismatch is left open
Alike(a, b) == {Plain(a), Plain(b)} = {"standard", "proleptic_gregorian"}

\* what preprocessing data in calendar a has to do if b is configured
MustWarn(source, a, b) == source = "cmip" /\ ~Same(a, b) /\ ~Alike(a, b)
MayWarn(source, a, b) == source = "cmip" /\ ~Same(a, b)
MustRefuse(source, a, b) == IF source = "arco" THEN b # "proleptic_gregorian" ELSE ~Same(a, b) /\ ~Alike(a, b)
MustAccept(source, a, b) == IF source = "arco" THEN b = "proleptic_gregorian" ELSE Same(a, b)
=============================================================================
