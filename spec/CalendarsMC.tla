---------------------------- MODULE CalendarsMC -----------------------------
(* The names stand for the calendars they claim: counting days in both       *)
(* calendars, two names are the same exactly if no date tells them apart.    *)
EXTENDS Calendars, FiniteSets
CONSTANTS From, To
VARIABLES a, b, y, m, na, nb, apart
vars == <<a, b, y, m, na, nb, apart>>
Init == a \in Known /\ b \in Known /\ y = From /\ m = 1 /\ na = 0 /\ nb = 0 /\ apart = FALSE
Next == /\ y <= To
        /\ na' = na + Days(a, y, m) /\ nb' = nb + Days(b, y, m)
        /\ apart' = (apart \/ Days(a, y, m) # Days(b, y, m))
        /\ IF m = 12 THEN m' = 1 /\ y' = y + 1 ELSE m' = m + 1 /\ UNCHANGED y
        /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
SameIsSame == Same(a, b) => na = nb /\ ~apart
OtherIsOther == y > To /\ ~Same(a, b) => apart
AlikeSince1582 == Alike(a, b) /\ From > 1582 => ~apart
Exclusive == \A s \in {"cmip", "era5", "arco"} : /\ ~(MustRefuse(s, a, b) /\ MustAccept(s, a, b))
                                                 /\ MustWarn(s, a, b) => MayWarn(s, a, b)
                                                 /\ MustWarn(s, a, b) = MustWarn(s, b, a)
=============================================================================
