------------------------------ MODULE WorkRecs ------------------------------
(* The forcing of a tracking run as the specification of the preprocessor    *)
(* derives it from the raw data, on the standard grid and in the units of    *)
(* TrackTrace (level fluxes and surface fluxes per time step).               *)
EXTENDS PrepTrace

Plain == \A j \in 1..Len(R.lon) : 0 <= R.lon[j] /\ R.lon[j] <= 180000
Lons == SortSeq([j \in 1..Len(R.lon) |-> IF Plain THEN R.lon[j] ELSE Norm(R.lon[j])], LAMBDA x, y: x < y)
MM == Len(Lats)
NN == Len(Lons)
Record(s) ==
  LET raw == RawAt(s)
      L == TLCEval([i \in 1..MM |-> TLCEval([j \in 1..NN |-> TLCEval(Layers(raw, RowOf(Lats[i]), ColOf(Lons[j]), FALSE))])])
      W == TLCEval([i \in 1..MM |-> TLCEval([j \in 1..NN |-> TLCEval(Surface(raw, s, RowOf(Lats[i]), ColOf(Lons[j])))])])
      On2(op(_, _)) == [i \in 1..MM |-> [j \in 1..NN |-> op(i, j)]]
  IN [su |-> On2(LAMBDA i, j: L[i][j].up.s), sl |-> On2(LAMBDA i, j: L[i][j].low.s),
      xu |-> On2(LAMBDA i, j: Mul(L[i][j].up.x, R.kflux)), xl |-> On2(LAMBDA i, j: Mul(L[i][j].low.x, R.kflux)),
      yu |-> On2(LAMBDA i, j: Mul(L[i][j].up.y, R.kflux)), yl |-> On2(LAMBDA i, j: Mul(L[i][j].low.y, R.kflux)),
      p |-> On2(LAMBDA i, j: Mul(W[i][j].p, R.ksurf)), e |-> On2(LAMBDA i, j: Mul(W[i][j].e, R.ksurf))]

RecStart == Init
RecCase == /\ c <= Len(Cases)
           /\ verdict' = Append(verdict, [run |-> R.id, lat |-> Lats, lon |-> Lons,
                                          recs |-> [q \in 1..((R.end - R.start) \div R.freq + 1) |-> TLCEval(Record(R.start + (q - 1) * R.freq))]])
           /\ c' = c + 1 /\ UNCHANGED <<t, f, k, phase, bad>>
RecWrite == c = Len(Cases) + 1 /\ phase = "start" /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written" /\ UNCHANGED <<c, t, f, k, bad, verdict>>
RecNext == RecCase \/ RecWrite
RecSpec == RecStart /\ [][RecNext]_vars
=============================================================================
