----------------------------- MODULE InputCheck -----------------------------
(* What the check of forcing data has to report.  A dataset is a record      *)
(*   vars   variable -> [units, dims, min, max]    (millionths; NoValue: all *)
(*                                                  values are missing)      *)
(*   coords coordinate -> the sequence of its values (thousandths, seconds)  *)
(*          or <<>> where the dimension has no coordinate                    *)
EXTENDS Integers, Sequences

Fluxes == {"fx_upper", "fy_upper", "fx_lower", "fy_lower"}
Stores == {"s_upper", "s_lower"}
Surface == {"evap", "precip"}
Names == Fluxes \cup Stores \cup Surface
Dims == {"time", "latitude", "longitude"}
NoValue == -2000000000

Valid(v) ==
  CASE v \in Surface -> {"kg m-2 s-1", "kg/m2/s"}
    [] v \in Stores -> {"kg m-2", "kg/m2"}
    [] OTHER -> {"kg m-1 s-1", "kg m^-1 s^-1", "kg m**-1 s**-1"}
Least(v) == IF v \in Fluxes THEN -1000000000 ELSE 0
Most(v) == CASE v = "evap" -> 1000 [] v = "precip" -> 100000 [] OTHER -> 1000000000
Signed(v) == v \in Fluxes

\* "": the variable has no units
UnitWrong(v, x) == x.units \notin Valid(v)
RangeWrong(v, x) == x.min = NoValue \/ x.min < Least(v) \/ x.max > Most(v)
SignWrong(v, x) == ~Signed(v) /\ (x.min = NoValue \/ x.min < 0)
DimsWrong(x) == Len(x.dims) # 3
Has(x, d) == \E k \in 1..Len(x.dims) : x.dims[k] = d
Lacks(x, d, q) == ~Has(x, d) \/ q = <<>>
SpacingWrong(q) == \E k \in 1..(Len(q) - 2) : q[k+1] - q[k] # q[k+2] - q[k+1]
OrderWrong(d, q) == \E k \in 1..(Len(q) - 1) : IF d = "latitude" THEN q[k+1] > q[k] ELSE q[k+1] < q[k]

\* a problem names a variable, a coordinate, or both
Problems(ds) ==
       {<<"unit", v, "">> : v \in {v \in Names : UnitWrong(v, ds.vars[v])}}
  \cup {<<"range", v, "">> : v \in {v \in Names : RangeWrong(v, ds.vars[v])}}
  \cup {<<"sign", v, "">> : v \in {v \in Names : SignWrong(v, ds.vars[v])}}
  \cup {<<"dims", v, "">> : v \in {v \in Names : DimsWrong(ds.vars[v])}}
  \cup {<<"lacks", p[1], p[2]>> : p \in {p \in Names \X Dims : Lacks(ds.vars[p[1]], p[2], ds.coords[p[2]])}}
  \cup {<<"spacing", "", d>> : d \in {d \in Dims : SpacingWrong(ds.coords[d]) /\ \E v \in Names : Has(ds.vars[v], d)}}
  \cup {<<"order", "", d>> : d \in {d \in Dims : OrderWrong(d, ds.coords[d]) /\ \E v \in Names : Has(ds.vars[v], d)}}
=============================================================================
