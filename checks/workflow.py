"""From raw data to results: preprocess and track with one configuration (C38).

WorkRecs.tla derives the forcing from the raw data, TrackTrace.tla judges the outputs by it; the
preprocessed files are not looked at.
"""
import shutil
import numpy as np
import vf, prep, track
from track import ONE, DG, lol
from transport import rng, pick, clean_bbox, inner_box

KEYS = ("tracking_direction", "tagging_region", "tracking_domain", "tracking_start_date", "tracking_end_date", "tagging_start_date", "tagging_end_date", "input_frequency", "timestep",
        "output_frequency", "periodic_boundary", "kvf")


def both(a):
    """preprocess and track as a user does"""
    import yaml
    c, w = a["raw"], a["run"]
    d = vf.newdir("work")
    try:
        t = prep.write_raw(c, d)
        track.config(w, d, "track.yaml")
        over = {k: v for k, v in yaml.safe_load((d / "track.yaml").read_text()).items() if k in KEYS}
        cfg = prep.config(c, d, t, **over)
        if w["bbox"] is None:
            lat, lon = a["axes"]
            full = np.zeros((len(lat), len(lon)), dtype="int64")
            full[np.ix_(a["rows"], a["cols"])] = w["masks"][0]["w"]
            track.write_mask(dict(w, masks=[dict(t=0, w=full)]), d / "mask.nc", lon=np.array(lon) / 1000, lat=np.array(lat) / 1000)
        code, ex = prep.invoke(c, cfg)
        if code:
            return dict(error=f"preprocessing failed: {ex}")
        code, ex = track.invoke("track", cfg)
        if code:
            return dict(error=f"tracking failed: {ex}")
        return dict(outs=track.read_outputs(w, d / "out"))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def raw_case(r, k):
    src = ("era5", "cmip", "era5", "arco")[k % 4]
    m, form = int(pick(r, 4, 5)), int(r.integers(5))
    dlat = int(pick(r, 1000, 1500, 2000))
    lat0 = int(r.integers(-50, 60)) * 1000
    lat = [lat0 - i * dlat for i in range(m)]
    if form == 0:                # the whole globe
        n, dlat = int(pick(r, 10, 12)), 500
        lat, dlon = [lat0 - i * dlat for i in range(m)], 360000 // n
        lon = [j * dlon for j in range(n)]
    else:
        n, dlon = int(pick(r, 4, 5, 6)), int(pick(r, 1000, 2000))
        s = (0, 360000 - 2 * dlon, 200000, -60000, 30000)[form]
        lon = [s + j * dlon for j in range(n)]
        if form == 1 and r.random() < 0.5:
            lon = sorted(x % 360000 for x in lon)
    if r.random() < 0.5:
        lat = lat[::-1]
    cals = ["standard", "noleap", "360_day", "all_leap", "julian", "proleptic_gregorian", "gregorian", "365_day", "366_day"]
    kind = "ml" if src == "era5" and k % 8 < 4 else "pl"
    lev = [int(x) for x in pick(r, (60, 100, 120, 137), (90, 105, 115, 130))] if kind == "ml" else [int(x) for x in pick(r, (300, 500, 700, 850, 950), (400, 600, 800, 1000))]
    freq = 21600 if src == "cmip" else int(pick(r, 3600, 10800, 21600))
    start = 21600 if src == "cmip" else 0
    nrec = int(pick(r, 3, 4, 5))
    few = lambda q, a, b: np.where(q.random((a, b)) < 0.3, 0, q.uniform(0, 3 * freq / 3600, (a, b)))
    c = prep.mk(f"{src}-{kind}{k}", r, src, kind, lat, lon, lev, start=start, end=start + freq * (nrec - 1), freq=freq, calendar="proleptic_gregorian" if src == "arco" else cals[int(r.integers(9))],
                base=pick(r, "2021-07-01", "2020-02-28", "2021-12-30"), names=pick(r, "old", "new"), layout=pick(r, "day", "month", "one"), dlat=dlat, dlon=dlon, tps=few, boundary=int(pick(r, 105, 111)),
                tcw=bool(r.random() < 0.3) and src == "era5" and form != 0, ps=None, qmax=1.2)
    for R in c["raw"]:           # moist everywhere
        R["q"] = np.maximum(R["q"], ONE // 8)
        R["tcw"] = np.maximum(R["tcw"] // 3, 8 * ONE)
    if r.random() < 0.3:
        c["extra"] = dict(parallel_preprocess=True, parallel_processes=2)
    return c


def run_for(r, k, c, got):
    """a tracking run on the specification's forcing; (case, rows, columns)"""
    lat, lon, dlat, dlon = got["lat"], got["lon"], c["dlat"], c["dlon"]
    dt, lead = c["_dt"], c["start"] // c["freq"]
    recs = [{v: np.array(x) for v, x in q.items()} for q in got["recs"]]
    recs = [recs[0]] * lead + recs
    M, N = len(lat), len(lon)
    ring = N * dlon == 360000
    rows, cols = list(range(M)), list(range(N))
    domain = None
    per = ring and r.random() < 0.7
    if not per and r.random() < 0.6:      # part of the data
        rows = rows[:4] if M > 4 else rows
        a = int(r.integers(0, N)) if ring else 0
        cols = [(a + j) % N for j in range(4)] if ring else (cols[1:] if N > 4 else cols)
        norm = lambda x: ((x + 180) % 360) - 180
        domain = [norm((lon[cols[0]] - dlon / 4) / 1000), (lat[rows[-1]] - dlat / 4) / 1000, norm((lon[cols[-1]] + dlon / 4) / 1000), (lat[rows[0]] + dlat / 4) / 1000]
    recs = [{v: x[np.ix_(rows, cols)] for v, x in q.items()} for q in recs]
    g = dict(m=len(rows), n=len(cols), lat=[lat[i] for i in rows], lon=[lon[j] for j in cols], dlat=dlat, dlon=dlon)
    t0, t1 = c["start"], c["end"]
    if dt < c["freq"] and r.random() < 0.4:
        t0, t1 = t0 + dt, t1 - dt * int(r.integers(0, 2))
    masks = bbox = None
    if r.random() < 0.4 or per:
        masks = [dict(t=0, w=r.choice([0, ONE // 4, ONE], (g["m"], g["n"]), p=[0.4, 0.2, 0.4]))]
    else:
        bbox = clean_bbox(inner_box(g, r))
    tag0, tag1 = (t0, t1) if r.random() < 0.7 else sorted(int(x) for x in r.integers(t0 // dt, t1 // dt + 1, 2) * dt)
    w = track.mk_case(c["id"], g, recs, dir=("backward", "forward")[k // 4 % 2], dt=dt, tin=c["freq"], t0=t0, t1=t1, kvf=float(pick(r, 0, 1, 3)), per=per, outf=dt * int(pick(r, 1, 2)), tag0=tag0, tag1=tag1,
                      bbox=bbox, masks=masks, check=["state", "tagged", "tracked", "losses", "gains", "edges", "balance"], tol=c["_tol"], base=c["base"], calendar=c["calendar"], domain=domain)
    return dict(raw=c, run=w, rows=rows, cols=cols, axes=(lat, lon))


def c38(chk):
    chk.assumptions += ["rounding of the fixed-point columns: tolerance %.3f kg m-2" % (TOL / ONE)]
    r = rng(38)
    raws, lines = [], []
    for k in range(96 if vf.THOROUGH else 28):
        c = raw_case(r, k)
        c["_dt"] = int(pick(r, 600, 900)) if c["freq"] == 3600 else int(pick(r, 1800, 3600))
        c["_tol"] = TOL * (2 if c["tcw"] else 1)
        c["check"] = ["column", "surface"]
        q = prep.line(c, dict(code=0, files=[], other=0))
        q["kflux"], q["ksurf"] = int(round(32 * c["_dt"] / DG * ONE)), int(round(c["_dt"] / 3600 * ONE))
        raws.append(c)
        lines.append(q)
    got, st, tr = vf.validate("WorkRecs", lines, weight=lambda q: len(q["lat"]) * len(q["lon"]) * len(q["raw"]))
    chk.add(states=st, transitions=tr)
    got = {q["run"]: q for q in got}
    small = lambda c: max(np.max(q[v]) for q in got[c["id"]]["recs"] for v in ("su", "sl")) / ONE * c["dlat"] * c["dlon"] / 1e6 < 850 \
        and max(np.max(np.abs(q[v])) for q in got[c["id"]]["recs"] for v in track.LEVELVARS) / ONE * max(c["dlat"], c["dlon"]) / 1000 < 850
    raws = [c for c in raws if small(c)]      # within the range of the fixed-point numbers
    jobs = [run_for(r, k, c, got[c["id"]]) for k, c in enumerate(raws)]
    res = vf.fork_map(both, jobs, timeout=200)
    res = track.rerun_odd(both, jobs, res, 200)
    cases = []
    for a, q in zip(jobs, res):
        if q[0] == "exc":
            raise vf.Machinery("recording failed:\n" + q[1])
        if q[0] != "ok" or "error" in q[1]:
            chk.violation(f"{a['run']['id']}: {q[1]['error'] if q[0] == 'ok' else q}", dict(raw=prep.brief(a["raw"]), run=track.brief(a["run"])))
            continue
        cases.append((a["run"], q[1]["outs"]))
    track.judge_runs(chk, cases)
    chk.sample([dict(id=a["run"]["id"], dir=a["run"]["dir"], calendar=a["raw"]["calendar"], domain=a["run"]["domain"], per=a["run"]["per"]) for a in jobs[:8]])


TOL = 600
