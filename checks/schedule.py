"""Tagging (C07), schedule and files (C08), interpolation (C09), domain (C12)."""
import shutil, os, re, glob, json, math
import numpy as np
import vf, track, rel, loads
from track import ONE
from transport import rng, pick, general, both_dirs, ring_grid, some_grid, fluxscale, witness, inner_box, even


# ------------------------------------------------------------------ C07
def edgebox(r, g):
    """a box whose edges lie on, just inside or just outside cell centres; may cross the antimeridian"""
    m, n = g["m"], g["n"]
    i0, i1 = sorted(int(x) for x in r.integers(0, m, 2))
    j0, j1 = (int(x) for x in r.integers(0, n, 2))
    off = lambda d: int(pick(r, 0, 0, 1, -1, d // 4, -d // 4))
    north, south = g["lat"][i0] + off(g["dlat"]), g["lat"][i1] + off(g["dlat"])
    if south >= north:
        north, south = g["lat"][i0] + g["dlat"] // 4, g["lat"][i1] - g["dlat"] // 4
    north, south = min(north, 80000), max(south, -80000)
    west, east = g["lon"][j0] + off(g["dlon"]), g["lon"][j1] + off(g["dlon"])
    clip = lambda x: max(-180000, min(180000, x))
    return [clip(west) / 1000, south / 1000, clip(east) / 1000, north / 1000]


def c07(chk):
    chk.assumptions += ["no time lies exactly between two fields of a dynamic region"]
    r = rng(7)
    cases = []
    for k in range(200 if vf.THOROUGH else 72):
        kind = ("box", "box", "mask", "dynamic")[k % 4]
        if k % 5 == 0:
            g = ring_grid(r, n=6, m=5, dlat=2000, off=pick(r, 0, 30000))
        elif k % 5 == 1:
            dlon = int(pick(r, 1000, 2000))
            n = int(pick(r, 4, 6))
            g = track.grid(5, n, lat0=int(pick(r, 2000, -40000, 60000)), dlat=1000, lon0=180000 - dlon * int(r.integers(1, n)), dlon=dlon)
        else:
            g = some_grid(r, m=5, n=int(pick(r, 5, 6)))
        m, n = g["m"], g["n"]
        nrec = 5
        tin = int(pick(r, 3600, 10800))
        dt = int(pick(r, tin // 3, tin // 2, tin, tin // 4))
        recs = track.forcing(r, m, n, nrec, flux=0.3 * fluxscale(g), smin=5, smax=30, surf=4)
        T = (nrec - 1) * tin
        d = both_dirs(k // 4)
        bbox = masks = None
        if kind == "box":
            bbox = edgebox(r, g)
        elif kind == "mask":
            masks = [dict(t=0, w=r.choice([0, ONE // 8, ONE // 2, ONE], (m, n)))]
        else:
            step = int(pick(r, T // 2, T // 3, 2 * tin, T))
            ts = [x for x in range(-step, T + step + 1, step)]
            # off the midpoints of model times
            ts = [t + 7 * 60 + 11 for t in ts]
            masks = [dict(t=t, w=r.choice([0, ONE // 2, ONE], (m, n)), dyn=True) for t in ts]
        a, b = sorted(int(x) for x in r.integers(0, T // dt + 1, 2))
        w = k % 6
        if w == 0:
            tag0, tag1 = 0, T
        elif w == 1:
            tag0, tag1 = a * dt, b * dt
        elif w == 2:     # between model times
            tag0, tag1 = a * dt + dt // 3 // 60 * 60, b * dt + dt // 2 // 60 * 60
        elif w == 3:     # a single instant
            tag0 = tag1 = a * dt
        elif w == 4:     # just beside model times
            tag0, tag1 = a * dt + 1, max(a * dt + 1, b * dt - 1)
        else:            # outside the run
            tag0, tag1 = pick(r, (-7200, -3600), (T + 3600, T + 7200), (-86400, a * dt), (b * dt, T + 86400))
        c = track.mk_case(f"{kind}{k}", g, recs, dir=d, dt=dt, tin=tin, kvf=1, per=k % 5 == 0, outf=dt, bbox=bbox, masks=masks,
                          tag0=tag0, tag1=tag1, check=["tagged"], model=False, tol=40)
        cases.append(c)
    byid, lines = track.check_runs(chk, cases)
    witness(chk, lines)
    chk.add(runs_with_box=sum(c["bbox"] is not None for c in cases), runs_with_dynamic_region=sum(len(c["masks"]) > 1 for c in cases))


# ------------------------------------------------------------------ C09
def c09(chk):
    r = rng(9)
    cases = []
    for k in range(80 if vf.THOROUGH else 26):
        tin = int(pick(r, 3600, 10800, 21600)) if k % 5 else int(pick(r, 86400, 43200))
        q = k % 4
        dt = int([tin // 4, tin, tin // 3, tin * 2][q] if k % 8 < 6 else pick(r, tin // 2, tin // 6, 2400))
        nrec = min(86400 // tin + 3, 14) if k % 3 else 6
        g = some_grid(r, m=4, n=4)
        recs = track.forcing(r, 4, 4, nrec, flux=0.2 * fluxscale(g), smin=2, smax=8, surf=1)
        fwd = k % 2 == 0
        for x in recs:       # more moisture is tagged than the atmosphere can hold
            x["e" if fwd else "p"] = np.rint(r.uniform(18, 24, (4, 4)) * 64) * (ONE // 64)
            x["p" if fwd else "e"] *= 0
        T = (nrec - 1) * tin
        t0 = int(pick(r, 0, dt, tin // 6, tin // 2))
        t1 = T - int(pick(r, 0, dt, tin // 6))
        outf = math.gcd(t0 if fwd else t1, dt)       # every step is written
        if 86400 % outf:
            t0, t1, outf = 0, (T // dt) * dt, 86400
        if outf == 86400 and t1 // dt > 36:
            t0, t1 = t1 - 30 * dt, t1
        base = pick(r, "2021-07-01", "2021-12-31", "2020-02-28")
        c = track.mk_case(f"full{k}", g, recs, dir="forward" if fwd else "backward", dt=dt, tin=tin, t0=t0, t1=t1, kvf=0, outf=outf,
                          masks=[dict(t=0, w=np.full((4, 4), ONE))], bbox=None, check=["full", "tagged"], model=False, tol=60, base=base)
        cases.append(c)
    for k in range(24 if vf.THOROUGH else 10):   # horizontal fluxes through complete steps
        tin = int(pick(r, 3600, 10800))
        cases.append(general(r, f"flux{k}", both_dirs(k), ["state", "tagged", "losses"], nrec=4, tins=(tin,), dts=(tin // 3, tin // 2, tin), flux=0.6, surf=2, smin=4, smax=16))
    byid, lines = track.check_runs(chk, cases)
    witness(chk, lines)
    if loads.loader():
        hs = [loads.random_history(r, f"requests{k}", n=12) for k in range(60 if vf.THOROUGH else 24)]
        lines, _ = rel.jobs(chk, loads.history, hs)
        loads.judge(chk, lines, hs)


# ------------------------------------------------------------------ C08
CALS = ("standard", "gregorian", "proleptic_gregorian", "noleap", "365_day", "360_day", "julian", "all_leap", "366_day")


def stamp(c, secs):
    t = track.when(c, secs)
    return [t.year, t.month, t.day, t.hour, t.minute, t.second]


def sched(c):
    import netCDF4, cftime
    d = vf.newdir("sch")
    try:
        track.prepare(c, d)
        cfg = track.config(c, d, **c["over"])
        code, ex = track.invoke("track", cfg)
        if code:
            return dict(errors=[f"run failed: {ex}"])
        files, other = [], []
        for f in sorted(os.listdir(d / "out")):
            m = re.fullmatch(r"(backtrack|forwardtrack)_(\d+)-(\d\d)-(\d\d)T(\d\d)-(\d\d)\.nc", f)
            if not m:
                if not (f == cfg.name or re.fullmatch(r"wam2layers_.*\.log", f) or f == "debug"):
                    other.append(f)
                continue
            with netCDF4.Dataset(d / "out" / f) as nc:
                nc.set_auto_mask(False)
                tv = nc["time"]
                conv = lambda v, x: cftime.num2date(x, getattr(v, "units", tv.units), calendar=getattr(v, "calendar", tv.calendar))
                tt = conv(tv, tv[:])
                bb = conv(nc["time_bnds"], nc["time_bnds"][:][0])
                lab = lambda t: [int(t.year), int(t.month), int(t.day), int(t.hour), int(t.minute), int(t.second)]
                tag = np.asarray(nc["tagged_evap" if c["dir"] == "forward" else "tagged_precip"][0])
                files.append(dict(name=[int(x) for x in m.groups()[1:]], kind="backward" if m.group(1) == "backtrack" else "forward",
                                  time=lab(tt[0]) if len(tt) == 1 else [], bounds=[lab(x) for x in bb], steps=int(round(float(tag[1, 1])))))
        files.sort(key=lambda f: f["time"], reverse=c["dir"] == "backward")
        y, mo, da = (int(x) for x in c["base"].split("-"))
        return dict(lines=[dict(id=c["id"], dir=c["dir"], calendar=c["calendar"], base=[y, mo, da], t0=c["t0"], t1=c["t1"], dt=c["dt"], outf=c["outf"],
                                files=files, other=len(other))], other=other)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c08(chk):
    chk.assumptions += ["output frequency divides a day and is at least a minute", "years 1700 to 2200"]
    r = vf.model_check("ScheduleMC", vf.cfg(constants=dict(MaxT=14 if vf.THOROUGH else 9, Cals="ALLCALS1", BASES="YEARS1"),
                                            invariants=["Inside", "AllCovered", "EachOnce", "Distinct"]), args=("-deadlock",))
    chk.model(r, "ScheduleMC")
    r = rng(8)
    cases = []
    bases = ["2023-02-27", "2024-02-27", "2023-12-30", "2023-04-29", "2100-02-27", "2000-02-27", "1900-02-27", "2021-06-15", "2024-01-29"]
    total = 150 if vf.THOROUGH else 54
    for k in range(total):
        cal = CALS[k % 9]
        base = bases[(k // 9 + k) % 9]
        tin = int(pick(r, 10800, 21600, 43200, 3600))
        ndays = 2 if tin == 3600 else 4 if k % 4 else 3
        nrec = ndays * 86400 // tin + 1
        dt = int(pick(r, tin, tin // 2, tin // 3, tin // 4, tin // 5, 5 * tin // 7 // 60 * 60, tin * 2))
        if tin == 3600:
            dt = int(pick(r, 3600, 1800, 2400))
        dt = max(dt, 900)
        T = (nrec - 1) * tin
        t0 = int(pick(r, 0, 0, tin // 2, dt // 2, 7200))
        t1 = T - int(pick(r, 0, 0, tin // 3, dt // 2, 3600))
        if k % 11 == 10:     # less than a step, or none at all
            t1 = t0 + int(pick(r, 0, dt - 60, dt))
        outf = int(pick(r, 86400, 86400, 43200, 21600, 10800, 3600))
        g = track.grid(4, 4, lat0=20000, dlat=1000, lon0=0, dlon=1000)
        recs = []
        one = np.full((4, 4), ONE)
        for _ in range(nrec):
            recs.append(dict(xu=one * 0, xl=one * 0, yu=one * 0, yl=one * 0, su=one * 400, sl=one * 400, e=one, p=one))
        c = track.mk_case(f"{cal}-{base}-{k}", g, recs, dir=both_dirs(k // 3), dt=dt, tin=tin, t0=t0, t1=t1, kvf=0, outf=outf, base=base, calendar=cal,
                          masks=[dict(t=0, w=one)], bbox=None, model=False)
        c["tag0"], c["tag1"] = 0, T
        spell = {86400: ["1D", "1d", "24h", "24H"], 43200: ["12h", "12H"], 21600: ["6h", "360min", "360T"], 10800: ["3h", "3H"], 3600: ["1h", "60T", "60min"]}
        c["over"] = dict(output_frequency=pick(r, *spell[outf]))
        if tin in spell:
            c["over"]["input_frequency"] = pick(r, *spell[tin])
        cases.append(c)
    for k in range(30 if vf.THOROUGH else 9):      # steps of seconds
        tin = int(pick(r, 3600, 10800))
        dt = int(pick(r, 20, 30, 45, 50, 90, 100, 450))
        span = dt * 60 // math.gcd(dt, 60)             # whole minutes and whole steps
        n = int(r.integers(1, max(2, 7200 // span)))
        day = 86400 * int(pick(r, 0, 1))
        t0 = (day + int(pick(r, 0, 60, 1800, 3600)) if day == 0 or k % 3 == 0 else day - 60 * int(r.integers(1, n * span // 60 + 1)))
        t1 = t0 + n * span
        nrec = 2 * 86400 // tin + 1
        one = np.full((4, 4), ONE)
        g = track.grid(4, 4, lat0=20000, dlat=1000, lon0=0, dlon=1000)
        recs = [dict(xu=one * 0, xl=one * 0, yu=one * 0, yl=one * 0, su=one * 400, sl=one * 400, e=one, p=one) for _ in range(nrec)]
        cal = CALS[k % 9]
        c = track.mk_case(f"seconds-{cal}-{k}", g, recs, dir=both_dirs(k), dt=dt, tin=tin, t0=t0, t1=t1, kvf=0, outf=int(pick(r, 86400, 3600, 300, 60)), base=bases[k % 9], calendar=cal,
                          masks=[dict(t=0, w=one)], bbox=None, model=False)
        c["tag0"], c["tag1"] = 0, 2 * 86400
        spell = {86400: ["1D", "24h"], 3600: ["1h", "60min"], 300: ["5min", "5T", "300s"], 60: ["1min", "60s", "T"], 10800: ["3h"]}
        c["over"] = dict(output_frequency=pick(r, *spell[c["outf"]]), input_frequency=pick(r, *spell[tin]))
        cases.append(c)
    lines, res = rel.jobs(chk, sched, cases)
    verdict, st, tr = vf.validate("ScheduleTrace", lines)
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines), files_judged=sum(len(q["files"]) for q in lines))
    bycase = {c["id"]: c for c in cases}
    for v in verdict:
        if not v["ok"]:
            b = v["bad"][0]
            q = next(q for q in lines if q["id"] == v["run"])
            chk.violation(f"run {v['run']} ({q['dir']}, dt {q['dt']}, {q['t0']}..{q['t1']}, output every {q['outf']} s): {b['clause']} at t={b['t']}: "
                          f"specified {b['model']}, observed {b['observed']}", dict(run=q, bad=v["bad"]))
    for q in lines[:4]:
        chk.sample(dict(run=q["id"], dir=q["dir"], files=[f["name"] for f in q["files"]][:4]))


# ------------------------------------------------------------------ C12
def domain_select(job):
    """select_subdomain on the boxes of one grid"""
    import xarray as xr
    from wam2layers.tracking.io import select_subdomain
    from wam2layers.config import BoundingBox
    gi, g, boxes = job
    lat, lon = np.array(g["lat"]) / 1000, np.array(g["lon"]) / 1000
    v = 1000.0 * np.arange(1, len(lat) + 1)[:, None] + np.arange(1, len(lon) + 1)[None, :]
    ds = xr.Dataset(dict(a=(("latitude", "longitude"), v)), coords=dict(latitude=lat, longitude=lon))
    lines, errs = [], []
    for k, b in boxes:
        try:
            s = select_subdomain(ds, str(BoundingBox(*[x / 1000 for x in b])))
            mi = lambda a: [int(round(float(x) * 1000)) for x in np.atleast_1d(a.values)]
            la, lo = mi(s["latitude"]), mi(s["longitude"])
            if set(la) - set(g["lat"]) or set(lo) - set(g["lon"]):
                errs.append(f"box {b} gives cells at {la} {lo}")
                continue
            lines.append(dict(id=f"g{gi}/{k}", grid=g, box=b, lats=la, lons=lo,
                              values=np.rint(np.asarray(s["a"].transpose("latitude", "longitude").values).reshape(len(la), len(lo))).astype(int).tolist()))
        except Exception as ex:  # noqa: BLE001
            errs.append(f"selecting box {b} from {g} failed: {type(ex).__name__}: {ex}")
    return dict(lines=lines, errors=errs[:3])


def domain_run(c):
    """a run on a domain; every cell tags its own number"""
    d = vf.newdir("dom")
    try:
        track.prepare(c, d)
        code, ex, outs = track.go(c, d)
        if code:
            return dict(errors=[f"run on domain {c['domain']} failed: {ex}"])
        o = outs[0]
        tag = np.asarray(o["tag"]) / ONE
        g = dict(lat=c["lat"], lon=c["lon"], dlat=c["dlat"], dlon=c["dlon"])
        if set(o["lat"]) - set(c["lat"]) or set(o["lon"]) - set(c["lon"]):
            return dict(errors=[f"run on domain {c['domain']}: cells at {o['lat']} {o['lon']}"])
        box = [int(round(x * 1000)) for x in c["domain"]] if c["domain"] else [-180000, -90000, 180000, 90000]
        vals = np.rint(tag * 8).astype(int)
        vals = 1000 * (vals // 100) + vals % 100
        return dict(lines=[dict(id=c["id"], grid=g, box=box, lats=o["lat"], lons=o["lon"], values=vals.tolist())])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c12(chk):
    r = rng(12)
    d = vf.newdir()
    res = vf.model_check("DomainGen", vf.cfg(constants=dict(GRIDS="SMALL1", STEPS="ROWS1")), env=dict(VF_OUT=d / "b.json"), workers=1)
    chk.model(res, "DomainGen")
    grids = json.load(open(d / "b.json"))
    chk.add(boxes_enumerated=sum(len(q["boxes"]) for q in grids))
    lines = []
    try:
        from wam2layers.tracking.io import select_subdomain  # noqa: F401
        have = True
    except ImportError:
        have = False
    if have:
        jobs = []
        for gi, q in enumerate(grids):
            n = len(q["boxes"]) if vf.THOROUGH else 700
            idx = sorted(r.choice(len(q["boxes"]), min(n, len(q["boxes"])), replace=False))
            for part in range(0, len(idx), 700):
                jobs.append((gi, q["grid"], [(int(i), q["boxes"][i]) for i in idx[part:part + 700]]))
        got = vf.fork_map(domain_select, jobs, timeout=200)
        for x in got:
            if x[0] != "ok":
                raise vf.Machinery(str(x))
            for e in x[1]["errors"]:
                chk.violation(e)
            lines += x[1]["lines"]
    cases = []
    for k in range(80 if vf.THOROUGH else 30):
        q = grids[k % len(grids)]
        g = q["grid"]
        m, n = len(g["lat"]), len(g["lon"])
        rows = lambda b: sum(b[1] <= y <= b[3] for y in g["lat"])
        cols = lambda b: sum((b[0] <= x <= b[2]) if b[0] <= b[2] else (x >= b[0] or x <= b[2]) for x in g["lon"])
        # first neighbours must be adjacent for the grid spacing to be defined
        ok = [b for b in (q["boxes"][int(i)] for i in r.integers(0, len(q["boxes"]), 400)) if rows(b) >= 3 and cols(b) >= 3]
        gap = any(g["lon"][j + 1] - g["lon"][j] != g["dlon"] for j in range(n - 1))
        if gap:
            ok = [b for b in ok if b[0] > b[2]]
        b = None if k % 10 == 9 and not gap else ok[int(r.integers(0, len(ok)))]
        if k % 2 and any(x[0] > x[2] for x in ok):
            ok = [x for x in ok if x[0] > x[2]]
            b = ok[int(r.integers(0, len(ok)))]
        num = (100 * np.arange(1, m + 1)[:, None] + np.arange(1, n + 1)[None, :]) * (ONE // 8)
        one = np.full((m, n), ONE)
        mask = k % 3 == 0
        rec = dict(xu=one * 0, xl=one * 0, yu=one * 0, yl=one * 0, su=one * 100, sl=one * 100, e=one if mask else num, p=one if mask else num)
        if mask:     # the number comes through the mask
            masks = [dict(t=0, w=num)]
        else:
            masks = [dict(t=0, w=one)]
        c = track.mk_case(f"run{k}", dict(m=m, n=n, **g), [rec, rec], dir=both_dirs(k // 2), dt=3600, tin=3600, kvf=0,
                          bbox=[-180, -80, 180, 80] if k % 3 == 1 else None, masks=masks, model=False)
        c["domain"] = None if b is None else [x / 1000 for x in b]
        cases.append(c)
    more, _ = rel.jobs(chk, domain_run, cases)
    lines += more
    verdict, st, tr = vf.validate("DomainTrace", lines)
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines))
    byid = {q["id"]: q for q in lines}
    for v in verdict:
        if not v["ok"]:
            q = byid[v["run"]]
            chk.violation(f"selection {v['run']}: {v['why']} wrong for box {q['box']} on latitudes {q['grid']['lat']}, longitudes {q['grid']['lon']}: "
                          f"got {q['lats']}, {q['lons']}", q)
    chk.add(runs_on_domains=len(more))
    for q in lines[:3] + more[:3]:
        chk.sample(dict(id=q["id"], box=q["box"], lons=q["lons"], lats=q["lats"]))
