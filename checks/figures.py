"""Figures: what `wam2layers visualize` shows of a run."""
import math, os, shutil
import numpy as np
import vf, track
from track import ONE, fx, lol
from transport import rng, pick, some_grid, fluxscale, both_dirs, inner_box

KINDS = ("output", "input", "both")


def shown(fig):
    """the fields drawn in a figure, rows from north to south"""
    found = []
    for ax in fig.axes:
        title = " ".join(ax.get_title(loc=p) for p in ("left", "center", "right")).lower()
        of = "tagged" if "input" in title else "tracked" if "track" in title else None
        if of is None:
            continue
        for q in ax.collections:
            if not hasattr(q, "get_coordinates"):
                continue
            xy = np.asarray(q.get_coordinates())
            m, n = xy.shape[0] - 1, xy.shape[1] - 1
            v = np.ma.filled(np.ma.asarray(q.get_array(), dtype="float64"), np.nan).reshape(m, n)
            lon = np.rint((xy[0, :-1, 0] + xy[0, 1:, 0]) * 500).astype(int)
            lat = np.rint((xy[:-1, 0, 1] + xy[1:, 0, 1]) * 500).astype(int)
            i, j = np.argsort(-lat), np.argsort(lon)
            found.append(dict(of=of, lat=lat[i].tolist(), lon=lon[j].tolist(), v=lol(fx(v[i][:, j]))))
    return found


def draw(what, cfg, out):
    """one request for a figure"""
    import matplotlib.figure as mf
    got = []
    save = mf.Figure.savefig

    def recording(self, *a, **k):
        got.append(shown(self))
        k["dpi"] = 30
        return save(self, *a, **k)
    figs = out / "figures"
    shutil.rmtree(figs, ignore_errors=True)
    mf.Figure.savefig = recording
    try:
        code, ex = track.invoke("visualize", what, cfg)
    finally:
        mf.Figure.savefig = save
        import matplotlib.pyplot as plt
        plt.close("all")
    files = sorted(f for f in os.listdir(figs)) if figs.exists() else []
    return dict(ok=code == 0, error=str(ex), files=files, shown=got[-1] if got else [])


def session(c):
    d = vf.newdir("fig")
    try:
        track.prepare(c, d)
        draws, err = [], []
        out = d / "out"
        if c["early"]:       # nothing written yet
            x = draw("output", track.config(c, d), out)
            draws.append(dict(x, what="output", missing=None, nodays=[]))
        if c["finer"]:       # leftovers of a run with more outputs
            code, ex, _ = track.go(c, d, output_frequency=track.freq(c["finer"]))
            err += [f"run failed: {ex}"] if code else []
        code, ex, outs = track.go(c, d)
        if code:
            return dict(errors=[f"run failed: {ex}"])
        if c["other"]:       # an output of the opposite direction
            f = outs[0]["file"]
            g = f.replace("forwardtrack", "x").replace("backtrack", "forwardtrack").replace("x", "backtrack")
            shutil.copy(out / f, out / g)
        cfg = track.config(c, d)
        due = c["due"]
        for what, gone, day in c["draws"]:
            away, missing, nodays = [], [], []
            if gone is not None and due:
                t = due[gone % len(due)]
                away += [out / o["file"] for o in outs if o["t"] == t]
                missing = [t]
            if day is not None:
                away.append(d / "pre" / f"{track.when(c, day * 86400).strftime('%Y-%m-%d')}_fluxes_storages.nc")
                nodays = [day]
            for f in away:
                os.rename(f, d / f.name)
            x = draw(what, cfg, out)
            for f in away:
                os.rename(d / f.name, f)
            draws.append(dict(x, what=what, missing=missing, nodays=nodays))
        for x in draws:
            if x["missing"] is None:
                x["missing"] = [o["t"] for o in outs]
        q = "e" if c["dir"] == "forward" else "p"
        ln = {k: c[k] for k in ("id", "dir", "dt", "tin", "t0", "t1", "outf", "tag0", "tag1", "m", "n", "lat", "lon")}
        ln.update(box=[int(round(x * 1000)) for x in c["bbox"]] if c["bbox"] is not None else [], w=lol(c["masks"][0]["w"]),
                  recs=[lol(x[q]) for x in c["recs"]], days=sorted({k * c["tin"] // 86400 for k in range(len(c["recs"]))}),
                  outs=[dict(t=o["t"], tr=lol(np.where((o["rl"] == track.NAN) | (o["ru"] == track.NAN), track.NAN, o["rl"] + o["ru"]))) for o in outs],
                  draws=draws, tol=100)
        return dict(lines=[ln], errors=err)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def due_times(c):
    step = c["dt"] if c["dir"] == "forward" else -c["dt"]
    t, ts = (c["t0"] if step > 0 else c["t1"]), []
    while c["t0"] <= t + step <= c["t1"]:
        t += step
        ts.append(t)
    return [t for t in ts if t % c["outf"] == 0 or t == ts[-1]]


def c29_case(r, k):
    while True:
        g = some_grid(r)
        if sorted(g["lon"]) == g["lon"]:
            break
    m, n = g["m"], g["n"]
    tin = int(pick(r, 3600, 10800, 21600))
    nrec = int(86400 * pick(r, 1, 1.5, 2, 2.5) // tin) + 1 if tin > 3600 else int(pick(r, 6, 13, 27))
    dt = int(pick(r, tin, tin // 2, tin // 3, 5 * tin // 7 // 60 * 60)) if tin < 21600 else int(pick(r, tin // 2, tin // 3, tin // 6))
    T = (nrec - 1) * tin
    t0 = int(pick(r, 0, 0, dt, tin // 2, 1200))
    t1 = T - int(pick(r, 0, 0, dt, tin // 2, 1200))
    outf = int(pick(r, dt if 86400 % dt == 0 else 3600, 3600, 10800, 21600, 43200, 86400))
    w = k % 5
    if w == 0:
        tag0, tag1 = t0, t1
    elif w == 1:
        tag0, tag1 = 0, T
    elif w == 2:
        a, b = sorted(int(x) for x in r.integers(0, nrec, 2))
        tag0, tag1 = a * tin, b * tin
    elif w == 3:    # beside the records
        a, b = sorted(int(x) for x in r.integers(0, nrec, 2))
        tag0, tag1 = a * tin + 60 * int(pick(r, 0, 1)), b * tin - 60 * int(pick(r, 0, 1))
        tag1 = max(tag0, tag1)
    else:           # one day or a part of it
        day = int(r.integers(0, T // 86400 + 1))
        tag0, tag1 = min(day * 86400, T), min(day * 86400 + int(pick(r, 43200, 82800, 86400)), T)
    sc = fluxscale(g)
    recs = track.forcing(r, m, n, nrec, flux=0.3 * sc, smin=3, smax=15, surf=1)
    bbox = masks = None
    if k % 3 == 2:
        wts = r.choice([0, ONE // 4, ONE // 2, ONE], (m, n))
        wts[1, 1] = ONE
        wts[0, 0] = 0
        masks = [dict(t=0, w=wts)]
    else:
        bbox = inner_box(g, r if k % 2 else None)
    c = track.mk_case(f"figures{k}", g, recs, dir=both_dirs(k // 2), dt=dt, tin=tin, t0=t0, t1=t1, outf=outf, tag0=tag0, tag1=tag1, bbox=bbox, masks=masks,
                      model=False, base=pick(r, "2021-07-01", "2021-12-30", "2020-02-28"), calendar=pick(r, "standard", "standard", "noleap", "360_day"))
    if c["calendar"] == "360_day" and c["base"].endswith("12-30"):
        pass
    if k % 4 == 1:
        track.pad(c, north=int(r.integers(0, 3)), south=int(r.integers(0, 3)), west=1 if g["lon"][0] > -170000 else 0, east=int(r.integers(0, 3)), seed=k)
    c["due"] = due_times(c)
    c["early"] = k % 6 == 0
    c["other"] = k % 4 == 0
    c["finer"] = math.gcd(t0 if c["dir"] == "forward" else t1, dt) if k % 4 == 2 else 0
    if c["finer"] and (86400 % c["finer"] or outf % c["finer"]):
        c["finer"] = 0
    days = sorted({q * tin // 86400 for q in range(nrec)})
    last = t1 // 86400       # read for its grid
    draws = [("output", None, None), ("input", None, None), ("both", None, None)]
    draws = [draws[i] for i in r.permutation(3)][:2] if not vf.THOROUGH else [draws[i] for i in r.permutation(3)]
    if c["due"]:
        draws.append((pick(r, "output", "both"), int(pick(r, 0, -1, int(r.integers(0, 50)))), None))
    free = [x for x in days if x != last and x not in (t1 // 86400,)]
    if free and k % 2:
        draws.append(("input", None, int(pick(r, *free))))
    c["draws"] = draws
    return c


def c29(chk):
    chk.assumptions += ["stationary region, domain not across the antimeridian", "cartopy is not installed here"]
    r0 = vf.model_check("FiguresMC", vf.cfg(constants=dict(MaxT=9 if vf.THOROUGH else 6), invariants=["EachStepOnce", "NothingElse", "Increasing"]))
    chk.model(r0, "FiguresMC")
    import cmocean, matplotlib.pyplot, wam2layers.analysis.visualization  # noqa: F401  (before forking)
    import rel
    r = rng(29)
    cases = [c29_case(r, k) for k in range(90 if vf.THOROUGH else 36)]
    lines, _ = rel.jobs(chk, session, cases)
    verdict, st, tr = vf.validate("FigureTrace", lines, weight=lambda q: q["m"] * q["n"] * len(q["recs"]))
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines), **{k: sum(v["stats"][k] for v in verdict) for k in ("drawn", "refused", "fields")})
    byid = {q["id"]: q for q in lines}
    for v in verdict:
        if not v["ok"]:
            b, q = v["bad"][0], byid[v["run"]]
            x = q["draws"][b["draw"] - 1]
            chk.violation(f"{v['run']} ({q['dir']}, dt {q['dt']}, {q['t0']}..{q['t1']}, output every {q['outf']} s, tagging {q['tag0']}..{q['tag1']}): "
                          f"visualize {b['what']}: {b['clause']}, cell ({b['row']},{b['col']}): specified {b['model'] / ONE:.5f}, observed {b['observed'] / ONE:.5f} "
                          f"(files {x['files']}, error {x['error']}, missing {x['missing']} {x['nodays']})", dict(run=q, bad=v["bad"]))
    for q in lines[:3]:
        chk.sample(dict(run=q["id"], dir=q["dir"], outputs=[o["t"] for o in q["outs"]][:8], figures=[x["what"] for x in q["draws"]]))
