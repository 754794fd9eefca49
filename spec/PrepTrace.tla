----------------------------- MODULE PrepTrace -----------------------------
(* Files written by the preprocessor against the specification: one file per *)
(* day, every requested time once, on the standard grid, each column what    *)
(* Preprocess says; at a time with unusable data it stops.                   *)
EXTENDS Preprocess, Schedule, Json, IOUtils, FiniteSets
Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES c, t, f, k, phase, bad, verdict
vars == <<c, t, f, k, phase, bad, verdict>>
R == Cases[c]
On(clause) == \E n \in 1..Len(R.check) : R.check[n] = clause
In(x, s) == \E n \in 1..Len(s) : s[n] = x
St(s) == Stamp(R.calendar, R.base, s)
Day(s) == SubSeq(St(s), 1, 3)
Note(clause, m, ob, cell, n) == <<[run |-> R.id, clause |-> clause, t |-> t, model |-> m, observed |-> ob, cell |-> cell, cells |-> n]>>
Expect(on, clause, m, ob) == IF On(on) /\ m # ob THEN Note(clause, m, ob, <<>>, 0) ELSE <<>>

(* ---- the grid ---- *)
Norm(x) == ((x + 180000) % 360000) - 180000
Lats == SortSeq(R.lat, LAMBDA x, y: x > y)
\* longitudes increase within -180..180 (which are the same meridian)
LonsOk(L) == /\ Len(L) = Len(R.lon) /\ \A j \in 1..Len(L) : -180000 <= L[j] /\ L[j] <= 180000
             /\ \A j \in 1..(Len(L) - 1) : L[j] < L[j+1]
             /\ {Norm(L[j]) : j \in 1..Len(L)} = {Norm(R.lon[j]) : j \in 1..Len(R.lon)}
RowOf(y) == CHOOSE i \in 1..Len(R.lat) : R.lat[i] = y
ColOf(x) == CHOOSE j \in 1..Len(R.lon) : Norm(R.lon[j]) = Norm(x)
Half(s, d) == [i \in 1..Len(s) |-> {s[i] - d \div 2, s[i] + d \div 2}]
AsSets(s) == [i \in 1..Len(s) |-> {s[i][1], s[i][2]}]

Kin(cal) == CASE cal = "gregorian" -> "standard" [] cal = "365_day" -> "noleap" [] cal = "366_day" -> "all_leap" [] OTHER -> cal

(* ---- one column ---- *)
RawAt(s) == R.raw[CHOOSE n \in 1..Len(R.raw) : R.raw[n].t = s]
Layers(raw, i, j, whole) ==
  LET ps == raw.ps[i][j]
      L == [n \in 1..Len(R.levels) |-> [p |-> R.levels[n], q |-> raw.q[n][i][j], u |-> raw.u[n][i][j], v |-> raw.v[n][i][j]]]
      S == [p |-> ps, q |-> IF R.dew THEN DewHumidity(raw.qs[i][j], ps) ELSE raw.qs[i][j], u |-> raw.us[i][j], v |-> raw.vs[i][j]]
      C == IF R.kind = "pl" THEN PressureLayers(L, S, Mul(R.factor, ps) + R.offset, whole)
           ELSE ModelLayers(R.levels, L, ps, R.boundary)
  IN  TwoLayers(IF R.tcw THEN Scaled(C, raw.tcw[i][j]) ELSE C)
Surface(raw, s, i, j) ==
  IF R.source = "cmip" THEN LET n == 2 * (s \div 21600) IN FromFluxes(<<R.pr[n-1][i][j], R.pr[n][i][j]>>, <<R.hf[n-1][i][j], R.hf[n][i][j]>>)
  ELSE Accumulated(raw.tp[i][j], raw.e[i][j], R.freq \div 60)

Columns(row, s, whole, Lons) ==           \* cells of one written time that are wrong
  LET raw == RawAt(s) IN
  {x \in (1..Len(Lats)) \X (1..Len(Lons)) :
    LET a == x[1] b == x[2]  T == Layers(raw, RowOf(Lats[a]), ColOf(Lons[b]), whole)
        ok(m, ob) == ob # NAN /\ Near(m, ob, R.tol) IN
    ~(ok(T.up.s, row.su[a][b]) /\ ok(T.low.s, row.sl[a][b]) /\ ok(T.up.x, row.xu[a][b])
      /\ ok(T.low.x, row.xl[a][b]) /\ ok(T.up.y, row.yu[a][b]) /\ ok(T.low.y, row.yl[a][b]))}
ShowColumn(row, s, x, whole, Lons) ==
  LET T == Layers(RawAt(s), RowOf(Lats[x[1]]), ColOf(Lons[x[2]]), whole) a == x[1] b == x[2] IN
  Note("column", <<T.up.s, T.low.s, T.up.x, T.low.x, T.up.y, T.low.y>>,
       <<row.su[a][b], row.sl[a][b], row.xu[a][b], row.xl[a][b], row.yu[a][b], row.yl[a][b]>>, x, 1)
BadColumn(row, s, Lons) ==
  IF ~On("column") THEN <<>> ELSE
  LET B == Columns(row, s, FALSE, Lons) IN
  IF B = {} THEN <<>>
  ELSE IF R.whole /\ Columns(row, s, TRUE, Lons) = {} THEN Note("whole", <<>>, <<>>, <<>>, Cardinality(B))
  ELSE ShowColumn(row, s, CHOOSE x \in B : TRUE, FALSE, Lons)
BadSurface(row, s, Lons) ==
  IF ~On("surface") THEN <<>> ELSE
  LET raw == RawAt(s)
      W(x) == Surface(raw, s, RowOf(Lats[x[1]]), ColOf(Lons[x[2]]))
      B == {x \in (1..Len(Lats)) \X (1..Len(Lons)) :
              LET m == W(x) p == row.p[x[1]][x[2]] e == row.e[x[1]][x[2]] IN
              ~(p >= 0 /\ e >= 0 /\ p # NAN /\ e # NAN /\ Near(m.p, p, 4) /\ Near(m.e, e, 4))}
  IN  IF B = {} THEN <<>> ELSE
      LET x == CHOOSE y \in B : TRUE  m == W(x) IN
      Note("surface", <<m.p, m.e>>, <<row.p[x[1]][x[2]], row.e[x[1]][x[2]]>>, x, Cardinality(B))

GridOk(F) == /\ F.lat = Lats /\ LonsOk(F.lon)
             /\ AsSets(F.latb) = Half(Lats, R.dlat) /\ AsSets(F.lonb) = Half(F.lon, R.dlon)

Init == c = 1 /\ t = 0 /\ f = 0 /\ k = 0 /\ phase = "start" /\ bad = <<>> /\ verdict = <<>>
Start == /\ phase = "start" /\ c <= Len(Cases)
         /\ t' = R.start /\ f' = 0 /\ k' = 0 /\ bad' = <<>> /\ phase' = "run" /\ UNCHANGED <<c, verdict>>
NewDay == f = 0 \/ Day(t) # Day(t - R.freq)
Process ==
  /\ phase = "run" /\ t <= R.end /\ ~In(t, R.faults)
  /\ f' = IF NewDay THEN f + 1 ELSE f
  /\ k' = IF NewDay THEN 1 ELSE k + 1
  /\ LET closed == IF NewDay /\ f > 0 /\ f <= Len(R.files) THEN Expect("files", "times of the day", k, Len(R.files[f].times)) ELSE <<>>
     IN  bad' = IF Len(bad) > 3 THEN bad ELSE bad \o closed \o
       (IF f' > Len(R.files) THEN Note("missing file", Day(t), <<>>, <<>>, 0)
        ELSE IF k' > Len(R.files[f'].times) THEN Note("missing time", St(t), <<>>, <<>>, 0)
        ELSE LET F == R.files[f'] IN
             Expect("files", "file name", Day(t), F.name) \o Expect("files", "calendar", Kin(R.calendar), Kin(F.cal)) \o Expect("files", "time", St(t), F.times[k'])
             \o (IF k' = 1 /\ On("grid") /\ ~GridOk(F) THEN Note("grid", <<Lats, R.lon>>, <<F.lat, F.lon, F.latb, F.lonb>>, <<>>, 0) ELSE <<>>)
             \o (IF F.lat = Lats /\ LonsOk(F.lon) THEN BadColumn(F.rows[k'], t, F.lon) \o BadSurface(F.rows[k'], t, F.lon)
                 ELSE Expect("column", "grid", Lats, F.lat) \o Expect("surface", "grid", Lats, F.lat)
                      \o Expect("column", "longitudes", TRUE, LonsOk(F.lon)) \o Expect("surface", "longitudes", TRUE, LonsOk(F.lon))))
  /\ t' = t + R.freq /\ UNCHANGED <<c, phase, verdict>>
Close(which) ==
  bad' = bad \o which
       \o (IF f > 0 /\ f <= Len(R.files) THEN Expect("files", "times of the day", k, Len(R.files[f].times)) ELSE <<>>)
       \o Expect("files", "number of files", f, Len(R.files)) \o Expect("files", "other files", 0, R.other)
Fail == /\ phase = "run" /\ t <= R.end /\ In(t, R.faults)
        /\ Close(Expect("refused", "error", TRUE, R.code # 0) \o Expect("refused", "error names the problem", TRUE, R.named))
        /\ phase' = "end" /\ UNCHANGED <<c, t, f, k, verdict>>
Complete == /\ phase = "run" /\ t > R.end
            /\ Close(Expect("accepted", "exit status", 0, R.code))
            /\ phase' = "end" /\ UNCHANGED <<c, t, f, k, verdict>>
Findings == SelectSeq(bad, LAMBDA b: b.clause = "whole")
Wrong == SelectSeq(bad, LAMBDA b: b.clause # "whole")
Finish == /\ phase = "end"
          /\ verdict' = Append(verdict, [run |-> R.id, ok |-> Wrong = <<>>, whole |-> Findings # <<>>, times |-> (t - R.start) \div R.freq,
                                         bad |-> IF Len(Wrong) > 3 THEN SubSeq(Wrong, 1, 3) ELSE Wrong])
          /\ c' = c + 1 /\ phase' = IF c' > Len(Cases) THEN "done" ELSE "start"
          /\ UNCHANGED <<t, f, k, bad>>
Write == phase = "done" /\ JsonSerialize(IOEnv.VF_OUT, verdict) /\ phase' = "written" /\ UNCHANGED <<c, t, f, k, bad, verdict>>
Next == Start \/ Process \/ Fail \/ Complete \/ Finish \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
