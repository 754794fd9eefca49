"""Preprocessing: columns (C15), surface fluxes (C16), files and grid (C17), refusal (C18), pool of workers (C27)."""
import json, os, re, shutil, time
from pathlib import Path
import numpy as np
import vf, prep, track
from track import ONE
from transport import rng, pick

HPA = [100, 200, 300, 400, 500, 600, 650, 700, 750, 800, 825, 850, 875, 900, 925, 950, 975, 1000]
ALL = ["column", "surface", "files", "grid", "accepted"]


def pgrid(r, m=None, n=None):
    m, n = m or int(pick(r, 2, 3)), n or int(pick(r, 2, 3, 4))
    dlat, dlon = int(pick(r, 250, 1000, 2500)), int(pick(r, 250, 1000, 3000))
    lat0, lon0 = int(r.integers(-60, 70)) * 1000, int(pick(r, -20000, 0, 5000, -179000, 100000))
    return [lat0 - i * dlat for i in range(m)], [lon0 + j * dlon for j in range(n)]


def run(chk, cases, named=None):
    res = vf.fork_map(prep.run_case, cases, timeout=150)
    res = track.rerun_odd(prep.run_case, cases, res, 150)
    for q in res:
        if q[0] == "exc":
            raise vf.Machinery("recording failed:\n" + q[1])
    return prep.judge(chk, cases, res, named), res


def design(chk):
    c = dict(QS="QUARTERS3", WS="WINDS2", PS="{560, 870, 1000, 1020}" if vf.THOROUGH else "{870, 1000}", FACTORS="FACTORS2", OFFSETS="{0, 74}",
             LEVELSETS="SETS4", BOUNDARIES="{0, 110, 111, 137}")
    chk.model(vf.model_check("PreprocessMC", vf.cfg(constants=c, invariants=["Additive", "Positive", "Ordered", "Even", "Uniform", "NoChange", "Scaling", "Below"])),
              "PreprocessMC")


# ------------------------------------------------------------------ C15
def c15(chk):
    chk.assumptions += ["no pressure level equals the surface pressure"]
    design(chk)
    r, r2 = rng(15), rng(2015)
    cases = []
    for k in range(160 if vf.THOROUGH else 48):
        lat, lon = pgrid(r)
        form = k % 6
        kw = dict(check=["column", "accepted"], dtype=pick(r, "f4", "f8"), start=0, end=3600 * int(pick(r, 0, 1)), freq=3600)
        b = int(r.integers(5))
        factor, offset = [(0.75, 7000.0), (0.75, 5000.0), (0.5, 20000.0), (0.9, 0.0), (0.72878581, 7438.803223)][b]
        if form in (0, 1, 4, 5):
            lev = sorted(r.choice(HPA, int(r.integers(3, 9)), replace=False).tolist())
            if k % 12 < 6 and 800 not in lev:
                lev = sorted(lev + [800])          # boundary on a level where surface pressure is 1000 hPa
            extra = [x for x in (10, 550, 775) if r.random() < 0.5]
            intlev = b < 3 and form == 0 or form == 5 and b < 3
            if b >= 3:
                intlev = False
            if form == 5 and b >= 3:
                factor, offset = 0.75, 7000.0
            if r.random() < 0.5:
                lev = [lev[i] for i in r.permutation(len(lev))]
            ps = None if r.random() < 0.7 else [100000, 56000, 80004, 102400, 90004]
        if form in (0, 1):
            c = prep.mk(f"era5pl{k}", r, "era5", "pl", lat, lon, lev, extralev=extra, intlev=intlev, factor=factor, offset=offset, ps=ps,
                        names=pick(r, "old", "new"), tcw=bool(r.integers(2)), **kw)
            if r.random() < 0.3:
                c["cfglevels"], c["levels"], c["filelevels"] = "all", lev, lev
                for R in c["raw"]:
                    for x in prep.LEVELVARS:
                        R[x] = R[x][:len(lev)]
        elif form in (2, 3):
            n = int(r.integers(2, 8))
            lev = sorted((r.choice(np.arange(1, 138), n, replace=False) if r.random() < 0.5 else np.unique(np.append(r.choice(np.arange(60, 137), n - 1), 137))).tolist())
            bound = int(pick(r, 111, lev[len(lev) // 2], lev[0], lev[-1] - 1, lev[0] - 1, 137))
            extra = [x for x in (2, 99, 136) if x not in lev]
            if k % 24 == 3:
                lev, extra = list(range(1, 138)), []
            c = prep.mk(f"era5ml{k}", r, "era5", "ml", lat, lon, lev, extralev=extra, boundary=bound, names=pick(r, "old", "new"), tcw=bool(r.integers(2)),
                        ps=None if r.random() < 0.7 else [50000, 101325, 108000], **kw)
            if len(lev) == 137:
                c["cfglevels"] = pick(r, "all", lev, "All")
            if c["cfglevels"] not in ("all", "All") and r2.random() < 0.5:   # listed from the surface up, or in no order
                c["cfglevels"] = lev[::-1] if r2.random() < 0.5 else [lev[i] for i in r2.permutation(len(lev))]
        elif form == 4:
            kw.update(start=21600 * int(r.integers(1, 4)), freq=21600)
            kw["end"] = kw["start"] + 21600 * int(r.integers(0, 2))
            c = prep.mk(f"cmip{k}", r, "cmip", "pl", lat, lon, lev, factor=factor, offset=offset, ps=ps, calendar=pick(r, "noleap", "360_day", "standard"), **kw)
            if r.random() < 0.5:                   # levels that not all variables have
                c["cmiplev"] = {"q": [225.0], "u": [225.0, 975.5], "v": [10.0]}
        else:
            c = prep.mk(f"arco{k}", r, "arco", "pl", lat, lon, lev, extralev=extra, intlev=intlev, factor=factor, offset=offset, ps=ps,
                        calendar="proleptic_gregorian", tcw=True, **kw)
        # humidity given below the surface, and the order of levels in the file
        if c["source"] != "cmip":
            c["levorder"] = r.permutation(len(c["filelevels"])).tolist() if r.random() < 0.5 else None
        cases.append(c)
    r2 = rng(3015)
    for k in range(6 if vf.THOROUGH else 3):   # all levels of the store
        lat, lon = pgrid(r2)
        lev = sorted(r2.choice(HPA, int(r2.integers(3, 8)), replace=False).tolist())
        cases.append(prep.mk(f"arcoall{k}", r2, "arco", "pl", lat, lon, [lev[i] for i in r2.permutation(len(lev))], cfglevels=("all", "All")[k % 2], start=0, end=3600, freq=3600,
                             intlev=True, factor=0.75, offset=7000.0, calendar="proleptic_gregorian", check=["column", "accepted"]))
    r2 = rng(1015)
    w = prep.mk("whole", r2, "era5", "pl", [41000, 40000], [0, 1000], [300, 500, 700, 850, 1000], intlev=True, whole=True, start=0, end=0, freq=3600,
                ps=[96000.9, 98000.9, 101000.9], check=["column", "accepted"], tol=150)
    for R in w["raw"]:
        R["q"][:] = 1.5 * ONE
        R["qs"][:] = 300 * ONE
    cases.append(w)
    run(chk, cases)
    chk.add(columns=sum(len(c["lat"]) * len(c["lon"]) for c in cases))


# ------------------------------------------------------------------ C16
def c16(chk):
    r = rng(16)
    cases = []
    for k in range(120 if vf.THOROUGH else 40):
        lat, lon = pgrid(r, m=3, n=4)
        src = ("era5", "era5", "cmip", "arco")[k % 4]
        freq = int(pick(r, 1800, 3600, 10800, 21600, 43200, 86400))
        kw = dict(check=["surface", "accepted"])
        if src == "cmip":
            kw.update(start=21600 * int(r.integers(1, 5)), freq=int(pick(r, 21600, 43200, 86400)), calendar=pick(r, "noleap", "360_day", "standard", "365_day"))
            kw["end"] = kw["start"] + 86400
        else:
            kw.update(start=freq * int(r.integers(0, 3)), freq=freq)
            kw["end"] = kw["start"] + freq * int(r.integers(1, 4))
        if src == "arco":
            kw.update(calendar="proleptic_gregorian")
        kind = "ml" if k % 8 == 0 else "pl"
        mag = float(pick(r, 0.001, 1, 30))
        kw["es"] = lambda r, m, n: np.where(r.random((m, n)) < 0.35, r.uniform(0, mag, (m, n)), -r.uniform(0, mag, (m, n))) * (r.random((m, n)) < 0.85)
        kw["tps"] = lambda r, m, n: np.where(r.random((m, n)) < 0.3, r.choice([0, -0.02, -mag], (m, n)), r.uniform(0, mag, (m, n)))
        c = prep.mk(f"{src}{k}", r, src, kind, lat, lon, [100, 137] if kind == "ml" else [500, 850], dtype=pick(r, "f4", "f8"), **kw)
        c["parts"] = int(pick(r, 1, 2))
        cases.append(c)
    run(chk, cases)


# ------------------------------------------------------------------ C17
def shifted_grid(r, k):
    """raw grids in the conventions data comes in"""
    m = int(pick(r, 2, 3, 4))
    dlat = int(pick(r, 250, 1000, 1500))
    lat0 = int(r.integers(-50, 60)) * 1000
    lat = [lat0 - i * dlat for i in range(m)]
    if r.random() < 0.5:
        lat = lat[::-1]
    f = k % 6
    if f == 0:
        n = int(pick(r, 4, 6, 8)); dlon = 360000 // n; lon = [j * dlon for j in range(n)]
    elif f == 1:
        n = int(pick(r, 4, 6)); dlon = 360000 // n; lon = [-180000 + j * dlon for j in range(n)]
    elif f == 2:       # across the meridian of Greenwich, 0..360
        dlon = int(pick(r, 500, 1000)); n = int(pick(r, 4, 5)); s = 360000 - dlon * int(r.integers(1, n)); lon = [s + j * dlon for j in range(n)]
        if r.random() < 0.5:
            lon = sorted(x % 360000 for x in lon)
    elif f == 3:       # across the antimeridian
        dlon = int(pick(r, 500, 1000)); n = int(pick(r, 4, 5)); s = 180000 - dlon * int(r.integers(1, n)); lon = [s + j * dlon for j in range(n)]
    elif f == 4:       # west of Greenwich
        dlon = int(pick(r, 250, 1000)); n = int(pick(r, 3, 5)); lon = [-60000 + j * dlon for j in range(n)]
    else:
        dlon = int(pick(r, 250, 1000)); n = int(pick(r, 3, 5)); lon = [20000 + j * dlon for j in range(n)]
    return lat, lon, dlat, dlon


def c17(chk):
    chk.assumptions += ["the calendar of the raw data is the configured one", "start and end are whole minutes"]
    r, r2 = rng(17), rng(2017)
    cases = []
    cals = ["standard", "noleap", "360_day", "all_leap", "julian", "proleptic_gregorian", "gregorian", "365_day", "366_day"]
    for k in range(150 if vf.THOROUGH else 45):
        lat, lon, dlat, dlon = shifted_grid(r, k)
        src = ("era5", "era5", "cmip", "era5", "arco")[k % 5]
        cal = cals[k % 9] if src != "arco" else "proleptic_gregorian"
        base = pick(r, "2021-07-01", "2020-02-28", "2021-12-30", "2019-02-27", "1900-02-27", "2021-02-27")
        freq = 21600 if src == "cmip" else int(pick(r, 1800, 3600, 10800, 18000, 21600, 25200, 43200, 86400))
        n = int(r.integers(1, 9))
        if freq == 1800 and k % 2:
            n = int(r2.integers(24, 60))           # days of more than 24 records
        start = freq * int(r.integers(0, max(1, 86400 // freq))) if src != "cmip" else 21600 * int(r.integers(1, 6))
        if src == "era5" and r.random() < 0.2:
            start += 1800 if freq != 1800 else 0
        end = start + freq * n
        slack = int(pick(r, 0, 0, 60, freq - 60)) if src != "cmip" else 0
        kind = "ml" if src == "era5" and k % 2 else "pl"
        c = prep.mk(f"{src}{k}", r, src, kind, lat, lon, [100, 137] if kind == "ml" else [500, 850], start=start, end=end, freq=freq, calendar=cal, base=base,
                    layout=pick(r, "day", "month", "one"), names=pick(r, "old", "new"), dlat=dlat, dlon=dlon, check=ALL)
        c["end"] += slack
        c["parts"] = int(pick(r, 1, 2))
        c["again"] = k % 3 == 0
        cases.append(c)
    run(chk, cases)
    chk.add(day_files_at_least=len(cases))


# ------------------------------------------------------------------ C18
ALIAS = dict(q=("q", "hus", "specific_humidity"), u=("u", "ua", "u_component_of_wind"), v=("v", "va", "v_component_of_wind"),
             ps=("ps", "sp", "surface_pressure", "qs", "dp"), qs=("qs", "d2m", "huss", "2m_dewpoint_temperature"), us=("us", "u10", "uas", "10m_u_component_of_wind"),
             vs=("vs", "v10", "vas", "10m_v_component_of_wind"), tcw=("tcw", "total_column_water"), p=("tp", "pr", "precip", "total_precipitation"),
             e=("e", "evap", "hfls", "evaporation", "precip"))
DIMS = ("level", "lev", "plev", "model_level", "pressure_level", "latitude", "lat", "longitude", "lon", "number", "y")


def named(c, res):
    text = res["error"] or ""
    words = ALIAS[c["defect"]["var"]]
    d = c["defect"]["defect"]
    if d in ("extradim", "lostdim", "renamed", "nolevel", "gap", "subset"):
        words += DIMS
    if d == "notime":     # the time that is missing
        return True
    return any(re.search(rf"(?<![a-z0-9]){re.escape(w)}(?![a-z0-9])", text) for w in words)


def defective(r, x, k):
    src, kind, d, v = x["source"], x["kind"], x["defect"], x["var"]
    cal = "proleptic_gregorian" if src == "arco" else "noleap" if src == "cmip" else "standard"
    start = 86400
    every = d in ("gap", "subset", "every-level")
    lev = [100, 120, 137] if kind == "ml" else [500, 700, 850]
    if every:
        lev = list(range(1, 138)) if d != "subset" else sorted(int(q) for q in r.choice(np.arange(1, 138), int(pick(r, 3, 22, 136)), replace=False))
    lats, lons = [41000, 40000], [0, 1000]
    if d == "nan":           # anywhere in data of any size
        m, n = [(2, 2), (2, 90), (75, 2), (12, 11)][int(r.integers(4))]
        lats, lons = [41000 - 250 * i for i in range(m)], [250 * j for j in range(n)]
    c = prep.mk(f"{src}-{kind}-{d}-{v}-{x['time']}", r, src, kind, lats, lons, lev, start=start, end=start + 3 * 43200, cfglevels=pick(r, "All", "all") if every else None,
                freq=43200, rawstep=21600, calendar=cal, extralev=[] if src == "cmip" or every else [99 if kind == "ml" else 400], check=["files", "grid", "refused", "accepted"], names=pick(r, "old", "new"),
                layout=pick(r, "day", "month", "one") if d != "nofile" else "day", tcw=src == "era5")
    c["defect"] = x
    T = lambda t: start + (t - 1) * 43200
    c["faults"] = [T(t) for t in x["bad"]]
    col = dict(era5=1, cmip=2, arco=3)[src]
    name = ("tp", "pr", "total_precipitation")[col - 1] if v == "p" else ("e", "hfls", "evaporation")[col - 1] if v == "e" else prep.VARS[v][col]
    flux = src == "cmip" and v in ("p", "e")
    lev = v in prep.LEVELVARS
    cell = (int(r.integers(len(lats))), int(r.integers(len(lons))))
    if len(lats) * len(lons) > 4 and r.random() < 0.5:
        cell = (len(lats) - 1, len(lons) - 1)
    if d == "nan":
        c["poison"] = [(name, T(x["time"]) - int(pick(r, 5400, 16200)) if flux else T(x["time"]), ((int(r.integers(3)),) if lev else ()) + cell, np.nan)]
    elif d == "nan-unused-level":
        c["poison"] = [(name, T(x["time"]), (3,) + cell, np.nan)]
    elif d == "nan-unused-time":
        t = T(x["time"]) + 21600
        c["poison"] = [(name, t - 5400 if flux else t, ((0,) if lev else ()) + cell, np.nan)]
    elif d == "extradim":
        c["adddim"] = {name: "number"}
    elif d == "lostdim":
        c["dropdim"] = {name: {"q": "level", "u": "longitude", "v": "latitude"}.get(v, "longitude")}
    elif d == "renamed":
        c["rename"] = {name: {"latitude": "y"}}
    elif d == "nofile":
        c["absent"] = [(name, None)] if x["time"] == 0 else [(name, prep.when(c, T(x["time"])).strftime("%Y-%m-%d"))]
    elif d == "notime":
        c["absenttime"] = [(name, T(x["time"]))]
    elif d == "nolevel":
        c["droplev"] = {name: c["levels"][1]}
    elif d == "gap":
        c["droplev"] = {name: int(r.integers(1, 138))}
    elif d == "offset":
        c["fluxoffset"] = 0
    return c


def c18(chk):
    chk.assumptions += ["raw variables that are spread over a lost dimension when combined with another one: see known_findings.json"]
    d = vf.newdir()
    res = vf.tlc("DefectGen", cfg=vf.cfg(), env=dict(VF_OUT=d / "o.json"))
    if not res.ok:
        raise vf.Machinery(res.out[-2000:])
    chk.model(res, "DefectGen")
    xs = sorted(json.loads((d / "o.json").read_text()), key=lambda x: json.dumps(x, sort_keys=True))
    r = rng(18)
    if not vf.THOROUGH:          # every defect of every variable; times in turn
        groups = {}
        for x in xs:
            groups.setdefault((x["source"], x["kind"], x["defect"], x["var"]), []).append(x)
        xs = [g[int(r.integers(len(g)))] for g in groups.values()]
    cases = [defective(r, x, k) for k, x in enumerate(xs)]
    # data spread over a lost dimension: a listed finding
    spread = [c for c in cases if c["defect"]["defect"] == "lostdim" and c["defect"]["var"] in ("p", "qs")]
    spread = [c for c in spread if not (c["source"] == "cmip" and c["defect"]["var"] == "qs")]
    ids = {c["id"] for c in spread}
    run(chk, [c for c in cases if c["id"] not in ids], named)
    res = vf.fork_map(prep.run_case, spread, timeout=100)
    for c, q in zip(spread, res):
        if q[0] != "ok":
            chk.violation(f"{c['id']}: {q}")
        elif q[1]["code"] == 0:
            chk.finding("spread-over-lost-dimension", f"{c['id']}: accepted")
        elif not named(c, q[1]) or q[1]["files"]:
            chk.violation(f"{c['id']}: refused with {q[1]['error']}, {len(q[1]['files'])} files written")
    chk.add(defects=len(cases), harmless=sum(not c["faults"] for c in cases))


# ------------------------------------------------------------------ C27
def pool_case(c):
    """Sequential run, then parallel runs with delays; events are the writes of the workers."""
    import xarray as xr
    d = vf.newdir("pool")
    try:
        t = prep.write_raw(c, d)
        cfg = prep.config(c, d, t, preprocessed_data_folder=str(d / "seq"))
        one = vf.fork_map(lambda _: prep.invoke(c, cfg), [0], timeout=60)[0]   # in a process of its own
        if one[0] != "ok":
            return dict(error=f"sequential run: {one}")
        code, err = one[1]
        seq, _ = prep.read_dir(c, d / "seq")
        if not c["baddays"] and code != 0:
            return dict(error=err)
        names = c["daynames"]
        log = d / "events.txt"
        keep = xr.Dataset.to_netcdf

        def slow(self, path=None, *a, **k):
            b = os.path.basename(str(path))[:10]
            if b in names:
                time.sleep(c["delays"][names.index(b)])
            out = keep(self, path, *a, **k)
            if b in names:
                with open(log, "a") as f:
                    f.write(f"{os.getpid()} {b}\n")
            return out
        if c["stale"]:       # files of an earlier run, of other data, are there already
            (d / "par").mkdir()
            for f in sorted((d / "seq").glob("*.nc")):
                if f.name[:10] in c["stale"]:
                    with xr.open_dataset(f, decode_times=False) as ds:
                        old = ds.load()
                    keep(old.isel(time=slice(0, None if c["whole_old"] else 1)) * 2, d / "par" / f.name)
        xr.Dataset.to_netcdf = slow
        cfg = prep.config(c, d, t, preprocessed_data_folder=str(d / "par"), parallel_preprocess=True, **({} if c["workers"] == 0 else dict(parallel_processes=c["workers"])))
        code2, err2 = prep.invoke(c, cfg)
        par, other = prep.read_dir(c, d / "par")
        ev = [l.split() for l in log.read_text().splitlines()] if log.exists() else []
        pids = sorted({p for p, _ in ev})
        dig = lambda files: [next((f["dig"] for f in files if "-".join(f"{x:02d}" if i else f"{x:04d}" for i, x in enumerate(f["name"])) == n), 0) for n in names]
        return dict(line=dict(id=c["id"], days=len(names), bad=c["baddays"], code=code2, other=other, expected=dig(seq), digests=dig(par),
                              events=[dict(worker=pids.index(p) + 1, day=names.index(n) + 1) for p, n in ev]), err=err2, workers=len(pids))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c27(chk):
    chk.assumptions += ["workers are separate processes of one machine"]
    for days, w, bad in ((4, 2, "{}"), (4, 3, "{2}"), (3, 3, "{1, 3}")) if not vf.THOROUGH else ((6, 3, "{}"), (6, 4, "{2}"), (5, 3, "{1, 3}")):
        chk.model(vf.model_check("Pool", vf.cfg(constants=dict(DAYS=days, WORKERS=w, BAD=bad), invariants=["Right", "OneEach", "InOrder", "NoneForBad"], properties=["Ends"])), f"Pool {days} {w} {bad}")
    r, r2 = rng(27), rng(2027)
    cases = []
    for k in range(40 if vf.THOROUGH else 14):
        days = int(r.integers(2, 6))
        src = ("era5", "era5", "cmip")[k % 3]
        freq = 21600
        start = 21600 * int(r.integers(1, 4))
        c = prep.mk(f"pool{k}", r, src, "pl", [41000, 40000], [0, 1000], [500, 850], start=start, end=start + 86400 * (days - 1) + 21600 * int(r.integers(0, 3)), freq=freq, check=["files"],
                    calendar=pick(r, "standard", "noleap", "360_day"), base=pick(r, "2021-07-01", "2020-02-27"))
        stamps = [prep.when(c, s).strftime("%Y-%m-%d") for s in range(c["start"], c["end"] + 1, freq)]
        c["daynames"] = sorted(set(stamps))
        n = len(c["daynames"])
        c["workers"] = int(pick(r, 1, 2, 3, n, 0))
        c["delays"] = [float(x) for x in r.permutation(n) * 0.15]
        c["baddays"], c["stale"], c["whole_old"] = [], [], True
        if k % 3 == 2:
            c["stale"] = [x for x in c["daynames"] if r2.random() < 0.7]
            c["whole_old"] = bool(r2.integers(2))
        if k % 3 == 1:
            b = sorted(int(x) for x in r.choice(np.arange(1, n + 1), int(r.integers(1, min(n, 3))), replace=False))
            if k % 2:
                b = [n]                                     # the last day only
            c["baddays"] = b
            for x in b:
                t = c["start"] + freq * stamps.index(c["daynames"][x - 1])
                c.setdefault("poison", []).append(("hus" if src == "cmip" else "q", t, (0, 0, 0), np.nan))
        cases.append(c)
    lines = []
    res = vf.fork_map(pool_case, cases, timeout=70, nproc=4)
    res = track.rerun_odd(pool_case, cases, res, 70)
    for c, q in zip(cases, res):
        if q[0] == "exc":
            raise vf.Machinery("recording failed:\n" + q[1])
        if q[0] != "ok" or "line" not in q[1]:
            chk.violation(f"{c['id']}: {q}", prep.brief(c))
            continue
        lines.append(q[1]["line"])
        chk.add(workers_seen=q[1]["workers"])
    verdict, st, tr = vf.validate("PoolTrace", lines, parts=1)
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines), writes=sum(v["events"] for v in verdict))
    for v in verdict:
        if not v["ok"]:
            b = v["bad"][0]
            c = next(c for c in cases if c["id"] == v["run"])
            chk.violation(f"{v['run']} ({c['workers']} workers): {b['clause']}: specified {b['model']}, observed {b['observed']}", prep.brief(c))
