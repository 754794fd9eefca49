"""Properties that relate runs to each other (RelTrace.tla): C06 C10 C11 C14 C28."""
import shutil, os, json, hashlib, subprocess, sys
from pathlib import Path
import numpy as np
import vf, track, rel
from track import ONE
from transport import rng, pick, general, both_dirs, ring_grid, some_grid, mc, fluxscale, witness, even


def in_dir(fn):
    def job(c):
        d = vf.newdir("rel")
        try:
            return fn(c, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return job


def outname(c, t):
    mode = "backtrack" if c["dir"] == "backward" else "forwardtrack"
    return f"{mode}_{track.when(c, t).strftime('%Y-%m-%dT%H-%M')}.nc"


# ------------------------------------------------------------------ C10
@in_dir
def grouping(c, d):
    track.prepare(c, d)
    code, ex, A = track.go(c, d, "fine", output_frequency=track.freq(c["dt"]))
    if code:
        return dict(errors=[f"run failed: {ex}"])
    lines, errs = [], []
    for f in c["coarse"]:
        code, ex, B = track.go(c, d, f"c{f}", output_frequency=track.freq(f))
        if code:
            errs.append(f"run with output frequency {f} failed: {ex}")
            continue
        lines.append(rel.line(f"{c['id']}/every{f}", c, A, B, outf=f, group=True, tol=12 + 2 * f // c["dt"]))
    return dict(lines=lines, errors=errs)


def c10(chk):
    chk.assumptions += ["output frequencies divide a day", "sums compared to single-precision rounding"]
    r = rng(10)
    cases = []
    for k in range(40 if vf.THOROUGH else 14):
        nrec = 27 if k % 3 == 0 else 9 if vf.THOROUGH or k % 3 == 1 else 5
        dt = 3600 if nrec == 27 else int(pick(r, 900, 1800, 1200))
        g = some_grid(r, m=4, n=4) if k % 4 else ring_grid(r, n=4)
        c = general(r, f"group{k}", both_dirs(k), [], model=False, g=g, per=k % 4 == 0, nrec=nrec, dts=(dt,), flux=pick(r, 0.5, 2), surf=2, smin=2, smax=12,
                    window=k % 2 == 0)
        # start and end off the output frequency
        n = (nrec - 1) * c["tin"] // dt
        c["t0"], c["t1"] = dt * int(r.integers(0, 3)), dt * (n - int(r.integers(0, 3)))
        if r.random() < 0.3:
            c["t1"] -= dt // 2 if c["dir"] == "forward" else 0
        ks = [q for q in (2, 3, 4, 6, 8, 12, 24, 48) if 86400 % (q * dt) == 0]
        c["coarse"] = [q * dt for q in ks[:: 2 if nrec == 27 else 1]][:5] + [86400]
        cases.append(c)
    lines, _ = rel.jobs(chk, grouping, cases)
    rel.judge(chk, lines)
    chk.sample([q["id"] for q in lines][:8])


# ------------------------------------------------------------------ C11
def span(c, tr):
    """settings of the run that continues from time tr"""
    return dict(tracking_start_date=track.iso(c, tr)) if c["dir"] == "forward" else dict(tracking_end_date=track.iso(c, tr))


def stale(src, dst, outs):
    import netCDF4
    for o in outs:
        shutil.copy(src / o["file"], dst)
        with netCDF4.Dataset(dst / o["file"], "a") as nc:
            for v in nc.variables:
                if nc[v].ndim == 3:
                    nc[v][:] = nc[v][:] * 2 + 1


@in_dir
def restarting(c, d):
    track.prepare(c, d)
    code, ex, A = track.go(c, d, "whole")
    if code:
        return dict(errors=[f"run failed: {ex}"])
    lines, errs = [], []
    at = {o["t"]: o["file"] for o in A}
    ts = [o["t"] for o in A][:-1]
    for tr in ts:
        out = d / f"r{tr}"
        out.mkdir()
        shutil.copy(d / "whole" / at[tr], out)
        if c["stale"]:        # of a run with other settings, from here on
            stale(d / "whole", out, [o for o in A if (o["t"] > tr) == (c["dir"] == "forward") and o["t"] != tr])
        code, ex, B = track.go(c, d, out.name, restart=True, **span(c, tr))
        if code:
            errs.append(f"restart at {tr} failed: {ex}")
            continue
        kept = [o for o in B if o["t"] == tr]
        if not kept or kept[0]["dig"] != next(o["dig"] for o in A if o["t"] == tr):
            errs.append(f"the output at {tr} was changed by the restart from it")
        B = [o for o in B if o["t"] != tr]
        lines.append(rel.line(f"{c['id']}/restart{tr}", c, A, B, frm=tr, tol=c["tol"]))
    # a chain of restarts in one folder, each from the output of the one before
    out = d / "chain"
    cuts = [t for i, t in enumerate(ts) if i % 2 == 0]
    start = None
    stop = dict(forward="tracking_end_date", backward="tracking_start_date")[c["dir"]]
    for i, t in enumerate(cuts + [None]):
        over = {} if start is None else dict(restart=True, **span(c, start))
        if t is not None:
            over[stop] = track.iso(c, t)
        code, ex, B = track.go(c, d, "chain", **over)
        if code:
            errs.append(f"chained restart at {start} failed: {ex}")
            break
        start = t
    else:
        lines.append(rel.line(f"{c['id']}/chain", c, A, B, tol=2 * c["tol"]))
    # stopped between its outputs: the last step is written, and the next run continues from there
    q = c["odd"]
    fwd = c["dir"] == "forward"
    whole = {("tracking_start_date" if fwd else "tracking_end_date"): track.iso(c, q["first"])}
    code, ex, F = track.go(c, d, "every", output_frequency=track.freq(q["fine"]), **whole)
    if code:
        errs.append(f"run with all outputs failed: {ex}")
    else:
        over = whole
        for i, t in enumerate(q["cuts"] + [None]):
            over = dict(over, output_frequency=track.freq(q["outf"]))
            if t is not None:
                over[stop] = track.iso(c, t)
            code, ex, B = track.go(c, d, "odd", **over)
            if code:
                errs.append(f"run continued from {q['cuts'][i - 1] if i else 'the start'} failed: {ex}")
                break
            over = dict(restart=True, **span(c, t)) if t is not None else None
        else:
            lines.append(rel.line(f"{c['id']}/odd", c, F, B, outf=q["outf"], group=True, cuts=q["cuts"], tol=3 * c["tol"],
                                  **{"t0" if fwd else "t1": q["first"]}))
    # nothing to restart from
    if ts:
        out = d / "none"
        out.mkdir()
        other = [x for x in ts + [A[-1]["t"]] if x != ts[0]][0]
        shutil.copy(d / "whole" / at[other], out)
        code, ex, B = track.go(c, d, "none", restart=True, **span(c, ts[0]))
        if code == 0:
            errs.append(f"a restart at {ts[0]} without that output did not fail")
        if [o["t"] for o in B] != [other]:
            errs.append("a restart without output to restart from wrote files")
    return dict(lines=lines, errors=errs)


def c11(chk):
    r = rng(11)
    cases = []
    for k in range(30 if vf.THOROUGH else 10):
        g = some_grid(r, m=5, n=5) if k % 3 else ring_grid(r, n=6)
        c = general(r, f"restart{k}", both_dirs(k), [], model=False, g=g, per=k % 3 == 0, nrec=5, dts=(1200, 1800, 3600), flux=pick(r, 0.3, 1.0), surf=2,
                    smin=3, smax=12, outf=int(pick(r, 1, 2, 3)), window=k % 4 == 1, kvfs=(0, 1, 3))
        c["tol"] = 60
        c["stale"] = k % 2 == 1
        if k % 5 == 4:
            # dynamic region, and over midnight
            c["base"] = "2021-07-01"
        dt, fwd = c["dt"], c["dir"] == "forward"
        off = int(pick(r, 0, dt // 2))
        first = c["t0"] + off if fwd else c["t1"] - off
        n = (c["t1"] - c["t0"] - off) // dt
        cuts = sorted(int(x) for x in r.choice(np.arange(1, n), min(n - 1, int(pick(r, 1, 2, 3))), replace=False))
        c["odd"] = dict(first=first, fine=off or dt, outf=int(pick(r, 86400, 7200, 10800, 21600)), cuts=[first + x * dt if fwd else first - x * dt for x in cuts])
        cases.append(c)
    lines, _ = rel.jobs(chk, restarting, cases)
    rel.judge(chk, lines)
    chk.sample([q["id"] for q in lines][:8])


# ------------------------------------------------------------------ C06
@in_dir
def rotating(c, d):
    n = c["n"]
    track.prepare(c, d)
    code, ex, A = track.go(c, d, "ref")
    if code:
        return dict(errors=[f"run failed: {ex}"])
    lines, errs = [], []
    for k in c["shifts"]:
        e = d / f"s{k}"
        q = dict(c)
        q["recs"] = [{v: np.roll(x, k, axis=1) for v, x in rec.items()} for rec in c["recs"]]
        q["masks"] = [dict(x, w=np.roll(x["w"], k, axis=1)) for x in c["masks"]]
        if c["bbox"] is not None:
            w, s, ea, no = c["bbox"]
            w, ea = [((x + k * c["dlon"] / 1000 + 180) % 360) - 180 for x in (w, ea)]
            q["bbox"] = [w, s, ea, no]
        track.prepare(q, e)
        code, ex, B = track.go(q, e, "out")
        if code:
            errs.append(f"run with the world rotated by {k} columns failed: {ex}")
            continue
        lines.append(rel.line(f"{c['id']}/rot{k}", c, A, B, shift=k, tol=20))
    return dict(lines=lines, errors=errs)


def c06(chk):
    mc(chk, "edges", ["EdgesEmpty"])
    mc(chk, "seam", ["SeamInvisible", "EdgesEmpty"], Per="TRUE", N=4, StorVals="SV1", thorough=dict(StorVals="SV2", FluxVals="FX3"))
    r = rng(6)
    cases = []
    for k in range(70 if vf.THOROUGH else 30):
        per = k % 3 == 0
        cases.append(general(r, f"edges{k}", both_dirs(k), ["edges", "balance"], model=False, per=per, cut=k % 4 == 1 or k % 6 == 0, flux=pick(r, 0.5, 2, 5), surf=3, smin=2, smax=12,
                             nrec=4, masks=None if r.random() < .5 else [dict(t=0, w=None)]))
        c = cases[-1]
        if c["masks"][0]["w"] is None:
            c["masks"][0]["w"] = np.full((c["m"], c["n"]), ONE)
    _, lines = track.check_runs(chk, cases)
    witness(chk, lines)
    # what reaches the edge is reported there
    cases = []
    for k in range(16 if vf.THOROUGH else 6):
        g = ring_grid(r, n=4) if k % 2 else some_grid(r, m=4, n=5)
        cases.append(general(r, f"edgeloss{k}", both_dirs(k // 2), ["losses", "edges", "state"], per=k % 2 == 1, cut=k > 1, g=g, flux=1.0, surf=3, smin=4, smax=12, nrec=3,
                             masks=[dict(t=0, w=np.full((g["m"], g["n"]), ONE))], dts=(1800,)))
    track.check_runs(chk, cases)
    cases = []
    for k in range(24 if vf.THOROUGH else 8):
        g = ring_grid(r, n=int(pick(r, 4, 5, 6, 8)))
        n = g["n"]
        c = general(r, f"ring{k}", both_dirs(k), [], model=False, per=True, g=g, flux=pick(r, 0.3, 1.5), surf=2, smin=3, smax=12, nrec=3, dts=(1800, 3600))
        if k % 2:
            j = int(r.integers(0, n))
            width = int(r.integers(1, n - 1))
            half = g["dlon"] / 2000
            norm = lambda x: ((x + 180) % 360) - 180
            c["bbox"] = [norm(g["lon"][j] / 1000 - half / 2), g["lat"][2] / 1000 - 0.1, norm(g["lon"][(j + width) % n] / 1000 + half / 2), g["lat"][1] / 1000 + 0.1]
            c["masks"] = [dict(t=0, w=np.zeros((g["m"], n)))]
        c["shifts"] = sorted({1, n - 1, int(r.integers(1, n))})
        cases.append(c)
    lines, _ = rel.jobs(chk, rotating, cases)
    rel.judge(chk, lines)
    chk.sample([q["id"] for q in lines][:8])


# ------------------------------------------------------------------ C14
def treehash(*paths):
    h = {}
    for p in paths:
        for f in sorted(Path(p).rglob("*")) if Path(p).is_dir() else [Path(p)]:
            if f.is_file():
                h[str(f)] = hashlib.sha256(f.read_bytes()).hexdigest()
    return h


VARIANTS = (
    dict(), dict(kvf=0.0), dict(tracking_direction="other"), dict(domain=1), dict(periodic_boundary="other"), dict(timestep="half"),
    dict(domain=1, tracking_direction="other"), dict(output_frequency="coarse"), dict(region=1), dict(world=1),
)


def variant(c, v):
    """a case and settings for a run that differs in a few respects"""
    q = dict(c)
    over = {}
    if v.get("tracking_direction"):
        q["dir"] = "forward" if c["dir"] == "backward" else "backward"
    if v.get("kvf") is not None:
        q["kvf"] = int(v["kvf"] * ONE)
    if v.get("periodic_boundary"):
        q["per"] = not c["per"]
    if v.get("timestep"):
        q["dt"] = c["dt"] // 2
        q["outf"] = c["outf"]
    if v.get("domain"):
        q["domain"] = c["adomain"]
        q["per"] = False
    if v.get("output_frequency"):
        q["outf"] = 4 * c["dt"]
    if v.get("region"):
        q["bbox"] = c["aregion"]
    if v.get("world"):      # other forcing, in another folder
        q["extra"] = dict(c["extra"], preprocessed_data_folder=c["aworld"])
    return q


def alone(x):
    """one run in a process of its own, on shared inputs"""
    c, d, name, how = x
    d = Path(d)
    q = variant(c, VARIANTS[how])
    if name.startswith("proc"):
        p = track.config(q, d, f"{name}.yaml", output_folder=str(d / name))
        e = dict(os.environ, PYTHONHASHSEED="77", PYTHONPATH=str(vf.REPO / "src"))
        r = subprocess.run([sys.executable, "-c", "from wam2layers.cli import cli; cli()", "track", str(p)], cwd="/", env=e, capture_output=True, text=True)
        return r.returncode, r.stderr[-300:], track.read_outputs(q, d / name)
    return track.go(q, d, name, cfgname=f"{name}.yaml")


def together(x):
    """runs in one process, all into the same folder, emptied in between or not"""
    c, d, names, hows, keep = x
    d = Path(d)
    got = []
    for nm, h in zip(names, hows):
        got.append(track.go(variant(c, VARIANTS[h]), d, names[0], cfgname=f"{names[0]}.yaml"))
        if not keep:
            shutil.rmtree(d / names[0], ignore_errors=True)
    shutil.rmtree(d / names[0], ignore_errors=True)
    return got


def c14(chk):
    import loads
    chk.assumptions += ["input files do not change while a process runs"]
    r = vf.model_check("LoadCache", vf.cfg(constants=dict(Keys="{1,2,3,4,5}", Size=3, HandOutCopies="TRUE", MaxOps=9 if vf.THOROUGH else 7),
                                           invariants=["CacheTrue", "Bounded"], properties=["ServedTrue"]))
    chk.model(r, "LoadCache")
    r = vf.tlc("LoadCache", cfg=vf.cfg(constants=dict(Keys="{1,2,3}", Size=2, HandOutCopies="FALSE", MaxOps=5), invariants=["CacheTrue"]), workers=2)
    if not r.violated:
        raise vf.Machinery("LoadCache without copies should fail:\n" + r.out[-2000:])
    r = rng(14)
    cases = []
    for k in range(10 if vf.THOROUGH else 4):
        g = some_grid(r, m=6, n=6)
        c = general(r, f"runs{k}", both_dirs(k), [], model=False, g=g, nrec=4, dts=(1800, 3600), flux=1.0, surf=2, smin=3, smax=12)
        if k % 2:
            c["bbox"], c["masks"] = None, c["masks"]
        lo = lambda j: g["lon"][j] / 1000
        c["adomain"] = [lo(1), g["lat"][5] / 1000, lo(5), g["lat"][1] / 1000]
        c["aregion"] = [lo(2), g["lat"][3] / 1000, lo(3), g["lat"][2] / 1000]
        cases.append(c)
    lines = []
    for c in cases:
        d = vf.newdir("c14")
        track.prepare(c, d)
        # every case has both kinds of region at hand
        track.write_mask(c, d / "mask.nc") if c["bbox"] is None else None
        w = dict(c, recs=[{k: v[::-1] for k, v in x.items()} for x in c["recs"]])
        track.write_inputs(w, d / "world" / "pre")
        c["aworld"] = str(d / "world" / "pre")
        before = treehash(d / "pre", *( [d / "mask.nc"] if c["bbox"] is None else []))
        work = [(c, str(d), f"ref{h}", h) for h in range(len(VARIANTS))]
        work += [(c, str(d), f"again{h}", h) for h in (0, 3)] + [(c, str(d), "proc0", 0)]
        ref = vf.fork_map(alone, work, timeout=200)
        got = {}
        for w, x in zip(work, ref):
            if x[0] == "exc":
                raise vf.Machinery(x[1])
            if x[0] != "ok" or x[1][0]:
                chk.violation(f"{c['id']} {VARIANTS[w[3]]} failed: {x[1]}", track.brief(c))
                continue
            got[w[2]] = x[1][2]
        H = len(VARIANTS)
        for w in work[H:]:
            if w[2] in got and f"ref{w[3]}" in got:
                q = variant(c, VARIANTS[w[3]])
                lines.append(fit(rel.line(f"{c['id']}/{w[2]}", q, got[f"ref{w[3]}"], got[w[2]], exact=True)))
        # sequences of runs in one process: every variant once before and once after every kind of other run
        seqs = []
        for s in range(8 if vf.THOROUGH else 4):
            hs = [int(x) for x in r.permutation(H)[: 4 if not vf.THOROUGH else 6]]
            hs += [hs[0]]
            keep = s % 2 == 1     # outputs of the runs before are there
            if keep:              # in one direction, others would be told apart by their names
                hs = [h for h in hs if "tracking_direction" not in VARIANTS[h]] or [0, 1, 0]
            seqs.append((c, str(d), [f"seq{s}_{i}" for i in range(len(hs))], hs, keep))
        res = vf.fork_map(together, seqs, timeout=200)
        for sq, x in zip(seqs, res):
            if x[0] == "exc":
                raise vf.Machinery(x[1])
            if x[0] != "ok":
                chk.violation(f"{c['id']} runs {sq[3]} in one process ended abnormally: {x}")
                continue
            for nm, h, (code, ex, B) in zip(sq[2], sq[3], x[1]):
                if code:
                    chk.violation(f"{c['id']}: run {VARIANTS[h]} failed after runs {sq[3]}: {ex}")
                elif f"ref{h}" in got:
                    if sq[4]:
                        own = {o["file"] for o in got[f"ref{h}"]}
                        B = [o for o in B if o["file"] in own]
                    lines.append(fit(rel.line(f"{c['id']}/{nm}:{VARIANTS[h]} in {sq[3]}", variant(c, VARIANTS[h]), got[f"ref{h}"], B, exact=True)))
        if treehash(d / "pre", *( [d / "mask.nc"] if c["bbox"] is None else [])) != before:
            chk.violation(f"{c['id']}: a run changed its input files")
        shutil.rmtree(d)
    rel.judge(chk, lines)
    chk.sample([q["id"] for q in lines][:10])
    if loads.loader():
        hs = [loads.random_history(r, f"history{k}") for k in range(60 if vf.THOROUGH else 24)]
        lines, _ = rel.jobs(chk, loads.history, hs)
        loads.judge(chk, lines, hs)


def fit(line):
    """runs on a subdomain are smaller than the case"""
    if line["A"]:
        line["m"], line["n"] = len(line["A"][0]["u"]), len(line["A"][0]["u"][0])
    return line


# ------------------------------------------------------------------ C28
def breakday(c, d, fault):
    """damage the inputs; returns the times of the unreadable records"""
    import netCDF4
    kind, day = fault[0], fault[1]
    date = track.when(c, day * 86400).strftime("%Y-%m-%d")
    f = d / "pre" / f"{date}_fluxes_storages.nc"
    times = [k * c["tin"] for k in range(len(c["recs"])) if k * c["tin"] // 86400 == day]
    if kind == "nofile":
        f.unlink()
    elif kind == "garbage":
        f.write_bytes(b"not a netCDF file" * 200)
    elif kind == "novar":
        import xarray as xr
        with xr.open_dataset(f, decode_times=False) as ds:
            ds = ds.load()
        ds.drop_vars(["precip", "fx_lower", "s_lower"]).to_netcdf(f)
    elif kind == "norecord":
        import xarray as xr
        with xr.open_dataset(f, decode_times=False) as ds:
            ds = ds.load()
        gone = fault[2]
        keep = [i for i, t in enumerate(times) if t != gone]
        if keep:
            ds.isel(time=keep).to_netcdf(f)
        else:
            f.unlink()
        times = [gone]
    return times


@in_dir
def faulty(c, d):
    track.prepare(c, d)
    code, ex, A = track.go(c, d, "ref", output_frequency=track.freq(c["dt"]))
    if code:
        return dict(errors=[f"run failed: {ex}"])
    lines, errs = [], []
    for i, fault in enumerate(c["faults"]):
        e = d / f"f{i}"
        track.prepare(c, e)
        shutil.copytree(e / "pre", e / "keep")
        faults, blocked = [], []
        if fault[0] == "blocked":
            blocked = [fault[1]]
            (e / "out" / outname(c, fault[1])).mkdir(parents=True)
            (e / "out" / outname(c, fault[1]) / "x").write_text("")
        else:
            faults = breakday(c, e, fault)
        x = fresh((c, e, {}))
        if x[0] != "ok":
            errs.append(f"run with fault {fault} ended abnormally: {x}")
            continue
        code, ex, B = x[1]
        lines.append(rel.line(f"{c['id']}/{fault}", c, A, B, group=True, faults=faults, blocked=blocked, code=code, exact=c["outf"] == c["dt"],
                              tol=0 if c["outf"] == c["dt"] else 30))
        # repair and continue
        if B and code and c["dir"]:
            if blocked:
                shutil.rmtree(e / "out" / outname(c, fault[1]))
            shutil.rmtree(e / "pre")
            (e / "keep").rename(e / "pre")
            tr = B[-1]["t"]
            x = fresh((c, e, dict(restart=True, **span(c, tr))))
            if x[0] != "ok" or x[1][0]:
                errs.append(f"continuing at {tr} after fault {fault} failed: {x}")
                continue
            lines.append(rel.line(f"{c['id']}/{fault}/continued", c, A, x[1][2], group=True, tol=60))
    return dict(lines=lines, errors=errs)


def fresh(x):
    """a run in a process of its own (nothing cached)"""
    def one(x):
        c, e, over = x
        return track.go(c, e, "out", **over)
    return vf.fork_map(one, [x], timeout=100)[0]


def c28(chk):
    r = rng(28)
    cases = []
    for k in range(24 if vf.THOROUGH else 8):
        tin = int(pick(r, 10800, 21600))
        dt = int(pick(r, tin // 2, tin // 2, tin, tin // 3))
        nrec = 2 * 86400 // tin + 2
        g = some_grid(r, m=4, n=4)
        c = general(r, f"fault{k}", both_dirs(k), [], model=False, g=g, nrec=nrec, tins=(tin,), dts=(dt,), flux=0.5, surf=2, smin=3, smax=12,
                    outf=int(pick(r, 1, 1, 2)))
        T = [i * tin for i in range(nrec)]
        fs = [("nofile", 1), ("garbage", 1), ("novar", 1), ("norecord", 1, 86400)]
        for t in r.choice(T[1:], 2, replace=False):
            fs.append(("norecord", int(t) // 86400, int(t)))
        ends = range(c["dt"], c["t1"] + 1, c["dt"]) if c["dir"] == "forward" else range(0, c["t1"], c["dt"])
        outs = [t for t in ends if t % c["outf"] == 0]
        fs.append(("blocked", int(r.choice(outs))))
        if k % 3 == 0:   # a fault outside the period of the run
            c["t1"] -= 2 * tin
            fs.append(("norecord", T[-1] // 86400, T[-1]))
        c["faults"] = fs
        cases.append(c)
    lines, _ = rel.jobs(chk, faulty, cases, timeout=200)
    got = rel.judge(chk, lines)
    chk.add(faults_injected=len([x for x in lines if not x["id"].endswith("continued")]), runs_stopped_by_fault=sum(v["stopped"] for v in got.values()))
    chk.sample([q["id"] for q in lines][:8])
