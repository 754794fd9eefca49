"""What a run tells its user: stability warnings, progress report, stored region."""
import glob, os, re, shutil
import numpy as np
import vf, track
from track import ONE, fx, lol
from transport import rng, pick, some_grid, ring_grid, fluxscale, general, both_dirs, even, inner_box, clean_bbox

WARN = re.compile(r"stability correction applied to ([-\d.einfa]+)% of\s+grid.*?[Aa]verage correction factor was ([-\d.einfa]+),\s+the strongest correction factor was "
                  r"([-\d.einfa]+)\s.*?written to (\S+?)\.?\s*$", re.S | re.M)
REPORT = re.compile(r"(\d{4,})-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d) - Tracked moisture: (\S+)%\. Tagged in atmosphere: (\S+)%\. Boundary transport: (\S+)%\. "
                    r"Lost moisture: (\S+)%\. Gained moisture: (\S+)%\. Tagging closure: (\S+)%\.")


def logtext(out):
    return "".join(open(f).read() for f in sorted(glob.glob(str(out / "wam2layers_*.log"))))


def seconds(c, y, mo, d, h, mi, s):
    import cftime
    return int(round((cftime.datetime(y, mo, d, h, mi, s, calendar=c["calendar"]) - track.when(c, 0)).total_seconds()))


def warnings_of(c, out):
    """the warnings in the log, with the field stored for each"""
    import netCDF4
    found = []
    for m in WARN.finditer(logtext(out)):
        pct, mean, strongest, file = m.groups()
        q = re.search(r"(\d{4})(\d\d)(\d\d)-(\d\d)(\d\d)(\d\d)", os.path.basename(file))
        field = []
        f = out / "debug" / os.path.basename(file)
        if f.exists():
            with netCDF4.Dataset(f) as nc:
                nc.set_auto_mask(False)
                field = [lol(fx(nc["correction_factor"][:]))]
        found.append(dict(t=seconds(c, *map(int, q.groups())) if q else -1, pct=lol(fx(float(pct))), mean=lol(fx(float(mean))),
                          strongest=lol(fx(float(strongest))), field=field))
    return found


def run_warnings(c):
    d = vf.newdir("run")
    try:
        cfg = track.setup(c, d)
        code, ex = track.invoke("track", cfg)
        return dict(code=code, error=ex, warnings=warnings_of(c, d / "out") if code == 0 else [])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def warn_case(r, id, k):
    """forcing whose strength and extent of cuts vary in time"""
    per = k % 7 == 6
    wide = k % 5 == 2 and k % 2 == 0       # enough cells for shares of a few percent
    g = some_grid(r, m=8, n=9, spacings=(500, 750, 1000)) if wide else ring_grid(r) if per else some_grid(r)
    per = per and not wide
    m, n = g["m"], g["n"]
    nrec = 7 if vf.THOROUGH else 6
    dt = int(pick(r, 900, 1800, 3600))
    smax = min(10.0, 800 / (g["dlat"] * g["dlon"] / 1e6))
    recs = track.forcing(r, m, n, nrec, flux=0.0, smin=smax / 2, smax=smax, surf=0.3, smooth=k % 2 == 0)
    kind = k % 5
    base = smax / 4 * fluxscale(g)      # around the cap for the smaller cells
    order = r.permutation(m * n)
    for q, rec in enumerate(recs):
        for lay in "ul":
            if kind == 0:      # nothing to cut
                amp, frac = 0.02, 1.0
            elif kind == 1:    # stronger and stronger
                amp, frac = 0.3 * 1.6 ** q, 0.5
            elif kind == 2:    # one strongly cut cell, then more and more mildly cut ones
                amp, frac = 2.0, (1 + q * r.integers(1, 4)) / (m * n) if not wide else (2.5 + q) / (m * n)
            elif kind == 3:    # up and down
                amp, frac = float(pick(r, 0.1, 0.8, 2, 5)), float(pick(r, 0.1, 0.4, 1))
            else:              # decreasing
                amp, frac = 6 / 1.5 ** q, 1.0
            on = np.zeros(m * n)
            on[order[:max(1, int(frac * m * n))]] = 1
            on = on.reshape(m, n)
            if kind == 2 and lay == "l":
                on *= 0
            X = on * amp * base * r.uniform(0.7, 1.0, (m, n)) * r.choice([-1, 1], (m, n))
            Y = on * amp * base * r.uniform(0.0, 1.0, (m, n)) * r.choice([-1, 1], (m, n))
            if kind == 2:
                X.flat[order[0]] = 9 * amp * base
            if (k // 5) % 3 == 1:
                Y = Y * 0
            elif (k // 5) % 3 == 2:
                X, Y = X * 0, Y + X
            # keep the mass through a cell within the fixed-point range
            X = np.clip(X, -450e3 / g["dlat"], 450e3 / g["dlat"])
            Y = np.clip(Y, -450e3 / g["dlon"], 450e3 / g["dlon"])
            rec["x" + lay][:] = np.rint(X * ONE)
            rec["y" + lay][:] = np.rint(Y * ONE)
    dts = dt
    outf = even(dts, int(pick(r, 2, 4, 8)))
    return track.mk_case(id, g, recs, dir=both_dirs(k // 3), dt=dts, kvf=float(pick(r, 0, 3)), per=per, outf=dts * outf,
                         masks=[dict(t=0, w=np.full((m, n), ONE))])


def c24(chk):
    r0 = vf.model_check("StabilityMC", vf.cfg(constants=dict(Factors="{20, 70, 79, 85, 90, 91, 100}", Shares="{0, 3, 5, 6, 7, 50, 55, 56, 100}", Depth=5 if vf.THOROUGH else 4),
                        invariants=["Announced", "NothingNeedless", "Few"], properties=["Shrinks"]))
    chk.model(r0, "StabilityMC")
    r = rng(24)
    cases = [warn_case(r, f"warn{k}", k) for k in range(150 if vf.THOROUGH else 50)]
    res = track.run_all(cases, fn=run_warnings)
    lines = []
    for c, x in zip(cases, res):
        if x[0] != "ok" or x[1]["code"] != 0:
            chk.violation(f"run {c['id']} failed: {x[1] if x[0] != 'ok' else x[1]['error']}", track.brief(c))
            continue
        lines.append({**track.record(c, []), "warnings": x[1]["warnings"]})
    verdict, st, tr = vf.validate("StabilityTrace", lines, weight=lambda q: q["m"] * q["n"] * (q["t1"] - q["t0"]) / q["dt"])
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines), **{k: sum(v["stats"][k] for v in verdict) for k in verdict[0]["stats"]})
    cs = {c["id"]: c for c in cases}
    for v in verdict:
        if not v["ok"]:
            b = v["bad"][0]
            chk.violation(f"run {v['run']}: {b['clause']} at t={b['t']} ({b['layer']} layer), model {b['model']}, observed {b['observed']}",
                          dict(case=track.brief(cs[v["run"]]), bad=v["bad"]))
    for q in lines[:3]:
        chk.sample(dict(run=q["id"], warnings=[(x["t"], round(x["pct"] / ONE, 1), round(x["strongest"] / ONE, 2)) for x in q["warnings"]]))


# ------------------------------------------------------------------ progress report
def reports_of(c, out):
    found = []
    for m in REPORT.finditer(logtext(out)):
        v = m.groups()
        found.append(dict(t=seconds(c, *map(int, v[:6])), **{k: lol(fx(float(x))) for k, x in zip(("tracked", "air", "boundary", "lost", "gained", "closure"), v[6:])}))
    return found


def run_report(c):
    """a run, and a restart of it half way: outputs and log lines of both"""
    d = vf.newdir("run")
    try:
        track.prepare(c, d)
        code, ex, outs = again(c, d)
        if code:
            return dict(code=code, error=ex)
        res = dict(code=0, parts=[dict(outs=outs, reports=reports_of(c, d / "out"), restart=False)])
        if c["again"] and len(outs) > 2:
            at = outs[len(outs) // 2]["t"]
            key = "tracking_start_date" if c["dir"] == "forward" else "tracking_end_date"
            for f in glob.glob(str(d / "out" / "wam2layers_*.log")):
                os.unlink(f)
            code, ex, outs = again(c, d, **{key: track.iso(c, at), "restart": True})
            if code:
                return dict(code=code, error=ex)
            outs = [o for o in outs if (o["t"] > at if c["dir"] == "forward" else o["t"] < at)]
            res["parts"].append(dict(outs=outs, reports=reports_of(c, d / "out"), restart=True))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def again(c, d, **over):
    """a second run needs a process of its own for its log"""
    return vf.fork_map(lambda _: track.go(c, d, **over), [0], timeout=80)[0][1]


def c25(chk):
    r = rng(25)
    cases = []
    for k in range(150 if vf.THOROUGH else 48):
        kw = {}
        if k % 6 == 5:
            kw = dict(tag0=0, tag1=0)
        c = general(r, f"report{k}", both_dirs(k), [], model=False, flux=pick(r, 0.5, 2, 6), surf=pick(r, 2.0, 6, 15), smin=pick(r, 0.5, 2, 5), smax=pick(r, 8, 20),
                    per=k % 4 == 3, outf=int(pick(r, 1, 2, 3, 8)), window=k % 3 == 1, nrec=6, dts=(900, 1800, 3600))
        if k % 8 == 7:      # nothing is ever tagged
            c["bbox"], c["masks"] = None, [dict(t=0, w=np.zeros((c["m"], c["n"]), dtype="int64"))]
        c["again"] = k % 2 == 0
        cases.append(c)
    res = track.run_all(cases, fn=run_report, timeout=150)
    lines = []
    for c, x in zip(cases, res):
        if x[0] != "ok" or x[1]["code"] != 0:
            chk.violation(f"run {c['id']} failed: {x[1] if x[0] != 'ok' else x[1]['error']}", track.brief(c))
            continue
        for q, part in enumerate(x[1]["parts"]):
            rec = track.record(c, part["outs"])
            rec.pop("recs"), rec.pop("masks")
            rec.update(id=f"{c['id']}.{q}", restart=part["restart"], reports=part["reports"])
            lines.append(rec)
    verdict, st, tr = vf.validate("ReportTrace", lines, weight=lambda q: q["m"] * q["n"] * len(q["outs"]))
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines), **{k: sum(v["stats"][k] for v in verdict) for k in verdict[0]["stats"]})
    cs = {c["id"]: c for c in cases}
    for v in verdict:
        if not v["ok"]:
            b = v["bad"][0]
            chk.violation(f"run {v['run']}: {b['clause']} in report {b['out']}: specified {b['model'] / ONE:.3f}, observed {b['observed'] / ONE:.3f}",
                          dict(case=track.brief(cs[v["run"].split(".")[0]]), bad=v["bad"]))
    for q in lines[:3]:
        chk.sample(dict(run=q["id"], reports=[{k: (round(v / ONE, 2) if k != "t" else v) for k, v in x.items()} for x in q["reports"][:3]]))


# ------------------------------------------------------------------ shapefile regions
def star(r, cx, cy, rx, ry, k):
    """a simple polygon (star shaped, usually not convex), vertices on thousandths of a degree"""
    a = np.sort((np.arange(k) + r.uniform(0.05, 0.95, k)) * 2 * np.pi / k)
    s = r.uniform(0.4, 1.0, k)
    return [[int(round(cx + rx * q * np.cos(t))), int(round(cy + ry * q * np.sin(t)))] for t, q in zip(a, s)]


def region_case(r, id, k):
    kind = k % 9
    dlat, dlon = int(pick(r, 500, 1000, 1500, 2500)), int(pick(r, 500, 1000, 2000, 2500))
    m, n = int(r.integers(4, 8)), int(r.integers(4, 8))
    lat0 = int(pick(r, 40000, 3000, -30000)) + int(pick(r, 0, 250))
    lon0 = int(pick(r, -100000, -3000, 20000, 170000 - dlon * n))
    g = track.grid(m, n, lat0=lat0, dlat=dlat, lon0=lon0, dlon=dlon)
    w, s = g["lon"][0] - dlon // 2, g["lat"][-1] - dlat // 2
    e, nn = g["lon"][-1] + dlon // 2, g["lat"][0] + dlat // 2
    cx, cy = (w + e) // 2, (s + nn) // 2
    rx, ry = (e - w) // 2, (nn - s) // 2
    if kind == 0:      # within the grid
        rings = [(1, star(r, cx, cy, rx * 0.8, ry * 0.8, int(r.integers(3, 9))))]
    elif kind == 1:    # larger than the grid: partly outside
        rings = [(1, star(r, cx + rx // 2, cy - ry // 2, rx, ry, int(r.integers(3, 9))))]
    elif kind == 2:    # inside a single cell somewhere
        i, j = int(r.integers(0, m)), int(r.integers(0, n))
        rings = [(1, star(r, g["lon"][j], g["lat"][i], dlon * 0.45, dlat * 0.45, 5))]
    elif kind == 3:    # in a corner cell or edge row
        i, j = int(pick(r, 0, m - 1)), int(pick(r, 0, n - 1, int(r.integers(0, n))))
        rings = [(1, star(r, g["lon"][j], g["lat"][i], dlon * 0.4, dlat * 0.4, 4))]
    elif kind == 4:    # edges on cell edges and centres
        x0, x1 = sorted(r.choice(np.arange(0, 2 * n + 1), 2, replace=False))
        y0, y1 = sorted(r.choice(np.arange(0, 2 * m + 1), 2, replace=False))
        X = [w + int(x) * dlon // 2 for x in (x0, x1)]
        Y = [s + int(y) * dlat // 2 for y in (y0, y1)]
        rings = [(1, [[X[0], Y[0]], [X[0], Y[1]], [X[1], Y[1]], [X[1], Y[0]]])]
    elif kind == 5:    # with a hole
        rings = [(1, [[w + 100, s + 100], [w + 100, nn - 100], [e - 100, nn - 100], [e - 100, s + 100]]), (-1, star(r, cx, cy, rx * 0.6, ry * 0.6, 6))]
    elif kind == 6:    # two parts
        rings = [(1, star(r, cx - rx // 2, cy, rx * 0.4, ry * 0.8, 5)), (1, star(r, cx + rx // 2, cy, rx * 0.4, ry * 0.8, 5))]
    elif kind == 7:    # long and thin, across the grid
        rings = [(1, [[w + dlon // 3, s + dlat // 3], [e - dlon, nn - dlat // 4], [e - dlon // 4, nn - dlat // 2]])]
    else:              # the whole grid and beyond
        rings = [(1, [[w - dlon, s - dlat], [w - dlon, nn + dlat], [e + dlon, nn + dlat], [e + dlon, s - dlat]])]
    tin, dt, nrec = 3600, 1800, 3
    recs = track.forcing(r, m, n, 1, flux=0.0, smin=30, smax=40, surf=8)
    for v in ("e", "p"):      # wet everywhere
        recs[0][v] = np.maximum(recs[0][v], ONE // 2)
    recs = [recs[0]] * nrec
    domain = None
    if k % 4 == 1:
        i0, i1, j0, j1 = int(r.integers(0, m - 3)), m - 1, 0, int(r.integers(3, n))
        domain = [(g["lon"][j0] - dlon // 4) / 1000, (g["lat"][i1] - dlat // 4) / 1000, (g["lon"][j1] + dlon // 4) / 1000, (g["lat"][i0] + dlat // 4) / 1000]
    c = track.mk_case(id, g, recs, dir=both_dirs(k // 2), dt=dt, tin=tin, kvf=0, outf=even(dt, 4), masks=[dict(t=0, w=np.zeros((m, n), dtype="int64"))], domain=domain)
    c["rings"] = rings
    c["second"] = k % 3 == 2    # another shape in the file
    return c


def write_shape(c, d):
    import shapefile
    with shapefile.Writer(str(d / "region")) as sf:
        sf.field("name", "C")
        parts = []
        for sign, pts in c["rings"]:
            area = sum(p[0] * q[1] - q[0] * p[1] for p, q in zip(pts, pts[1:] + pts[:1]))
            ring = [[x / 1000, y / 1000] for x, y in pts]
            # outer rings are stored clockwise, holes counter clockwise
            parts.append(ring[::-1] if (area > 0) == (sign > 0) else ring)
        sf.poly([p + p[:1] for p in parts])
        sf.record("region")
        if c["second"]:
            sf.poly([[[-170, -50], [-170, 60], [170, 60], [170, -50], [-170, -50]]])
            sf.record("other")


def run_region(c):
    import netCDF4
    d = vf.newdir("run")
    try:
        track.write_inputs(c, d / "pre")
        write_shape(c, d)
        code, ex, outs = track.go(c, d, tagging_region=str(d / "region.shp"))
        if code:
            return dict(code=code, error=ex)
        stored = []
        f = d / "out" / "debug" / "tagging_region.nc"
        if f.exists():
            with netCDF4.Dataset(f) as nc:
                nc.set_auto_mask(False)
                v = next(v for v in nc.variables.values() if v.ndim == 2)
                w = fx(v[:])
                if v.dimensions[0] == "longitude":
                    w = w.T
                stored = [dict(lat=[int(round(x * 1000)) for x in nc["latitude"][:]], lon=[int(round(x * 1000)) for x in nc["longitude"][:]], w=lol(w))]
        tag = sum(o["tag"] for o in outs)
        return dict(code=0, stored=stored, tagged=dict(lat=outs[0]["lat"], lon=outs[0]["lon"], w=lol(tag)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c26(chk):
    r0 = vf.model_check("RegionMC", vf.cfg(constants=dict(M=4, Unit=1000), invariants=["Tiles", "Shares", "OneIfCovered"]))
    chk.model(r0, "RegionMC")
    r = rng(26)
    cases = [region_case(r, f"region{k}", k) for k in range(220 if vf.THOROUGH else 72)]
    res = track.run_all(cases, fn=run_region)
    lines = []
    for c, x in zip(cases, res):
        if x[0] != "ok" or x[1]["code"] != 0:
            chk.violation(f"run {c['id']} failed: {x[1] if x[0] != 'ok' else x[1]['error']}", dict(rings=c["rings"], grid=[c["lat"], c["lon"]]))
            continue
        x = x[1]
        q = "e" if c["dir"] == "forward" else "p"
        amount = np.asarray(c["recs"][0][q]) * ((c["t1"] - c["t0"]) // c["dt"])
        # cells that no ring comes near
        pts = np.array([p for _, ring in c["rings"] for p in ring])
        lo, hi = pts.min(axis=0), pts.max(axis=0)
        clear = [[int(x_ + c["dlon"] < lo[0] or x_ - c["dlon"] > hi[0] or y + c["dlat"] < lo[1] or y - c["dlat"] > hi[1]) for x_ in c["lon"]] for y in c["lat"]]
        lines.append(dict(id=c["id"], m=c["m"], n=c["n"], lat=c["lat"], lon=c["lon"], dlat=c["dlat"], dlon=c["dlon"], stored=x["stored"], tagged=x["tagged"],
                          amount=lol(amount), clear=clear, rings=[dict(sign=s, pts=[[4 * a, 4 * b] for a, b in p]) for s, p in c["rings"]]))
    verdict, st, tr = vf.validate("RegionTrace", lines, weight=lambda q: q["m"] * q["n"])
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines), **{"cells_" + k: sum(v["stats"][k] for v in verdict) for k in ("partial", "full", "cells")})
    cs = {q["id"]: q for q in lines}
    for v in verdict:
        if not v["ok"]:
            b = v["bad"][0]
            chk.violation(f"run {v['run']}: {b['clause']} at cell ({b['row']},{b['col']}): specified {b['model'] / ONE:.4f}, observed {b['observed'] / ONE:.4f}; {b['cells']} cells",
                          dict(case=cs[v["run"]], bad=v["bad"]))
    for q in lines[:3]:
        chk.sample(dict(run=q["id"], rings=q["rings"], lat=q["lat"], lon=q["lon"]))
