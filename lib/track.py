"""Synthetic tracking experiments: forcing files, configuration, run, recording.

All model quantities are integers in the fixed-point format of spec/Fx.tla.
"""
import datetime as dt, glob, json, os, shutil, zlib
from pathlib import Path
import numpy as np
import vf

ONE = 1 << 18
NAN = 1000000000
BIG = ONE * 1024 - 1
DG = 111089.56
LEVELVARS = ("xu", "xl", "yu", "yl")


def fx(x):
    """float array -> fixed point ints, with a sentinel for non-finite or absurd values."""
    x = np.asarray(x, dtype="float64")
    with np.errstate(all="ignore"):
        r = np.rint(x * ONE)
    bad = ~np.isfinite(r) | (np.abs(r) > BIG)
    r = np.where(bad, 0, r).astype("int64")
    return np.where(bad, NAN, r)


def lol(a):
    return np.asarray(a).astype("int64").tolist()


# ---------------------------------------------------------------- cases
def grid(m, n, lat0=40000, dlat=1000, lon0=0, dlon=1000):
    """lat0: northernmost centre; lon0: westernmost centre (thousandths of a degree)."""
    lat = [lat0 - i * dlat for i in range(m)]
    lon = [((lon0 + j * dlon + 180000) % 360000) - 180000 for j in range(n)]
    return dict(m=m, n=n, lat=lat, lon=lon, dlat=dlat, dlon=dlon)


def forcing(rng, m, n, nrec, flux=0.5, smin=2.0, smax=20.0, surf=0.5, calm=0.0, smooth=False, fluxlist=None,
            slope=None):
    """Records at successive input times; fluxes in kg m-2 * degree per step."""
    recs = []
    for k in range(nrec):
        r = {}
        for v in LEVELVARS:
            a = rng.uniform(-flux, flux, (m, n)) if np.isscalar(flux) else rng.choice(flux, (m, n))
            if fluxlist is not None:
                a = rng.choice(fluxlist, (m, n))
            if calm:
                a = np.where(rng.random((m, n)) < calm, 0.0, a)
            r[v] = np.rint(a * ONE)
        for v in ("su", "sl"):
            r[v] = np.rint(rng.uniform(smin, smax, (m, n)) * 64) * (ONE // 64)
        for v in ("e", "p"):
            a = rng.uniform(0, surf, (m, n))
            r[v] = np.rint(np.where(rng.random((m, n)) < 0.15, 0, a) * 4096) * (ONE // 4096)
        recs.append(r)
    if smooth:  # storages change little in time
        for k in range(1, nrec):
            for v in ("su", "sl"):
                d = recs[k][v] - recs[0][v]
                recs[k][v] = recs[0][v] + np.rint(d / ONE * 0.05 * 64) * (ONE // 64)
    return recs


def calm_cells(recs, cells):
    """make the given cells windless in both layers at all times"""
    for r in recs:
        for (i, j) in cells:
            for v in LEVELVARS:
                r[v][i, j] = 0


def mk_case(id, g, recs, *, dir="backward", dt=1800, tin=3600, t0=0, t1=None, kvf=3, per=False, outf=None,
            tag0=None, tag1=None, bbox=None, masks=None, check=(), model=True, both=False, tol=120, baltol=None,
            base="2021-07-01", calendar="standard", domain=None, extra=None):
    if t1 is None:
        t1 = (len(recs) - 1) * tin
    c = dict(id=id, dir=dir, dt=dt, tin=tin, t0=t0, t1=t1, kvf=int(round(kvf * ONE)), per=per,
             outf=outf or dt, tag0=t0 if tag0 is None else tag0, tag1=t1 if tag1 is None else tag1,
             check=list(check), model=model, both=both, tol=tol, init=[], base=base, calendar=calendar, **g)
    # rounding of single precision: per cell, growing with the number of steps between outputs
    cellarea = max(1, g["dlat"] * g["dlon"] / 1e6)
    c["baltol"] = baltol or int(g["m"] * g["n"] * cellarea * (20 + 6 * c["outf"] / dt)) + 1500
    c["recs"] = recs
    c["bbox"], c["domain"], c["extra"] = bbox, domain, extra or {}
    if masks is None:
        w = np.zeros((g["m"], g["n"]), dtype="int64")
        lons, lats = g["lon"], g["lat"]
        for i in range(g["m"]):
            for j in range(g["n"]):
                if inbox(lons[j] / 1000, lats[i] / 1000, bbox):
                    w[i, j] = ONE
        masks = [dict(t=0, w=w)]
    c["masks"] = masks
    return c


def inbox(lon, lat, b):
    w, s, e, n = b
    if not (s <= lat <= n):
        return False
    return (w <= lon <= e) if w <= e else (lon >= w or lon <= e)


# ---------------------------------------------------------------- files
def when(c, s):
    import cftime
    y, mo, d = map(int, c["base"].split("-"))
    return cftime.datetime(y, mo, d, calendar=c["calendar"]) + dt.timedelta(seconds=int(s))


def iso(c, s):
    return when(c, s).strftime("%Y-%m-%dT%H:%M:%S" if int(s) % 60 else "%Y-%m-%dT%H:%M")


def pad(c, north=0, south=0, west=0, east=0, seed=0):
    """give the run a tracking domain: the files hold more cells, with other data, around the grid of the case"""
    c["pad"] = (north, south, west, east, seed)
    d, e = c["dlat"] / 2000, c["dlon"] / 2000
    norm = lambda x: ((x + 180) % 360) - 180
    if west + east == 0:      # all longitudes
        lo, hi = -180.0, 180.0
    else:
        lo, hi = norm(c["lon"][0] / 1000 - e), norm(c["lon"][-1] / 1000 + e)
    c["domain"] = [lo, c["lat"][-1] / 1000 - d, hi, c["lat"][0] / 1000 + d]
    return c


def padded_axes(c):
    no, so, we, ea, _ = c.get("pad", (0, 0, 0, 0, 0))
    lat = [c["lat"][0] + c["dlat"] * k for k in range(no, 0, -1)] + list(c["lat"]) + [c["lat"][-1] - c["dlat"] * k for k in range(1, so + 1)]
    lon = [c["lon"][0] - c["dlon"] * k for k in range(we, 0, -1)] + list(c["lon"]) + [c["lon"][-1] + c["dlon"] * k for k in range(1, ea + 1)]
    return lat, [((x + 180000) % 360000) - 180000 for x in lon] if we + ea else lon


def padded(c, a, hi):
    """the field with other numbers around it"""
    no, so, we, ea, seed = c.get("pad", (0, 0, 0, 0, 0))
    if not no + so + we + ea:
        return np.asarray(a)
    m, n = np.shape(a)
    r = np.random.default_rng([seed, m, n])
    b = np.rint(r.uniform(0.2, 1, (m + no + so, n + we + ea)) * hi)
    b[no:no + m, we:we + n] = a
    return b


def write_inputs(c, pre: Path, dtype="f4"):
    import netCDF4
    pre.mkdir(parents=True, exist_ok=True)
    days = {}
    for k in range(len(c["recs"])):
        t = when(c, k * c["tin"])
        days.setdefault(t.strftime("%Y-%m-%d"), []).append((k, t))
    lat, lon = padded_axes(c)
    m, n, DT = len(lat), len(lon), c["dt"]
    names = dict(xu="fx_upper", xl="fx_lower", yu="fy_upper", yl="fy_lower", su="s_upper", sl="s_lower", e="evap", p="precip")
    scale = dict(xu=DG / DT, xl=DG / DT, yu=DG / DT, yl=DG / DT, su=1, sl=1, e=1 / DT, p=1 / DT)
    for day, ks in days.items():
        with netCDF4.Dataset(pre / f"{day}_fluxes_storages.nc", "w") as nc:
            nc.createDimension("time", None)
            nc.createDimension("latitude", m)
            nc.createDimension("longitude", n)
            tv = nc.createVariable("time", "i8", ("time",))
            tv.units = "seconds since 1900-01-01"
            tv.calendar = c["calendar"]
            tv[:] = netCDF4.date2num([t for _, t in ks], tv.units, calendar=c["calendar"])
            v = nc.createVariable("latitude", "f8", ("latitude",)); v[:] = np.array(lat) / 1000; v.units = "degrees_north"
            v = nc.createVariable("longitude", "f8", ("longitude",)); v[:] = np.array(lon) / 1000; v.units = "degrees_east"
            for short, name in names.items():
                v = nc.createVariable(name, dtype, ("time", "latitude", "longitude"))
                for q, (k, _) in enumerate(ks):
                    v[q] = (padded(c, c["recs"][k][short], 12 * ONE) / ONE * scale[short])


def write_mask(c, path: Path, lon=None, lat=None):
    import xarray as xr
    if lat is None and lon is None and "pad" in c:
        lat, lon = (np.array(x) / 1000 for x in padded_axes(c))
        ms = [dict(x, w=padded(c, x["w"], ONE)) for x in c["masks"]]
    else:
        ms = c["masks"]
    lat = np.array(c["lat"]) / 1000 if lat is None else lat
    lon = np.array(c["lon"]) / 1000 if lon is None else lon
    if len(ms) == 1 and not ms[0].get("dyn"):
        da = xr.DataArray(np.asarray(ms[0]["w"]) / ONE, coords=dict(latitude=lat, longitude=lon), dims=("latitude", "longitude"), name="tagging_region")
    else:
        times = [when(c, x["t"]) for x in ms]
        da = xr.DataArray(np.array([np.asarray(x["w"]) / ONE for x in ms]), name="tagging_region",
                          coords=dict(time=times, latitude=lat, longitude=lon), dims=("time", "latitude", "longitude"))
        if c["calendar"] in ("standard", "gregorian", "proleptic_gregorian"):
            da["time"] = np.array([np.datetime64(x.strftime("%Y-%m-%dT%H:%M:%S")) for x in times])
    da.to_netcdf(path)


def freq(s):
    if s % 86400 == 0:
        return f"{s // 86400}D"
    if s % 3600 == 0:
        return f"{s // 3600}h"
    if s % 60 == 0:
        return f"{s // 60}min"
    return f"{s}s"


def config(c, d: Path, cfgname="config.yaml", **over):
    import yaml
    cfg = dict(
        filename_template="unused", preprocessed_data_folder=str(d / "pre"), tracking_direction=c["dir"],
        tagging_region=list(c["bbox"]) if c["bbox"] is not None else str(d / "mask.nc"),
        tracking_domain=list(c["domain"]) if c["domain"] is not None else None,
        output_folder=str(d / "out"), calendar=c["calendar"],
        preprocess_start_date=iso(c, c["t0"]), preprocess_end_date=iso(c, c["t1"]),
        tracking_start_date=iso(c, c["t0"]), tracking_end_date=iso(c, c["t1"]),
        tagging_start_date=iso(c, c["tag0"]), tagging_end_date=iso(c, c["tag1"]),
        input_frequency=freq(c["tin"]), timestep=c["dt"], output_frequency=freq(c["outf"]),
        level_type="model_levels", levels=[1, 2], restart=False, periodic_boundary=c["per"], kvf=c["kvf"] / ONE)
    cfg.update(c["extra"])
    cfg.update(over)
    p = d / cfgname
    p.write_text(yaml.safe_dump(cfg))
    return p


def invoke(*args):
    """Run the command line in this process; returns (exit_code, exception text)."""
    from click.testing import CliRunner
    from wam2layers.cli import cli
    r = CliRunner().invoke(cli, [str(a) for a in args])
    ex = None if r.exception is None or isinstance(r.exception, SystemExit) else f"{type(r.exception).__name__}: {r.exception}"
    return r.exit_code, ex


def setup(c, d: Path):
    write_inputs(c, d / "pre")
    if c["bbox"] is None:
        write_mask(c, d / "mask.nc")
    return config(c, d)


def read_output(f, c):
    """One output file as integers."""
    import netCDF4, cftime
    with netCDF4.Dataset(f) as nc:
        nc.set_auto_mask(False)
        tv = nc["time"]
        tt = cftime.num2date(tv[:][0], tv.units, calendar=tv.calendar)
        secs = (cftime.datetime(*tt.timetuple()[:6], calendar=c["calendar"]) - when(c, 0)).total_seconds()
        fwd = c["dir"] == "forward"
        g = lambda v: nc[v][0]
        rec = dict(t=int(round(secs)), u=fx(g("s_track_upper_restart")), l=fx(g("s_track_lower_restart")),
                   tag=fx(g("tagged_evap" if fwd else "tagged_precip")),
                   rl=fx(g("p_track_lower" if fwd else "e_track")),
                   ru=fx(g("p_track_upper")) if fwd else np.zeros_like(fx(g("e_track"))),
                   loss=fx(g("losses")), gain=fx(g("gains")))
        bn = nc["time_bnds"]
        u = getattr(bn, "units", tv.units)
        b = cftime.num2date(bn[:][0], u, calendar=getattr(bn, "calendar", tv.calendar))
        rec["bnds"] = [int(round((cftime.datetime(*x.timetuple()[:6], calendar=c["calendar"]) - when(c, 0)).total_seconds())) for x in b]
        crc = 0
        for v in sorted(nc.variables):
            crc = zlib.crc32(np.ascontiguousarray(nc[v][:]).tobytes(), zlib.crc32(v.encode(), crc))
        rec["dig"] = crc >> 1
        rec["lat"] = [int(round(x * 1000)) for x in nc["latitude"][:]]
        rec["lon"] = [int(round(x * 1000)) for x in nc["longitude"][:]]
        return rec


def read_outputs(c, out: Path):
    outs = [read_output(f, c) | {"file": os.path.basename(f)} for f in glob.glob(str(out / "*track_*.nc")) if os.path.isfile(f)]
    outs.sort(key=lambda r: r["t"], reverse=c["dir"] == "backward")
    return outs


def run_case(c):
    """Write inputs, run the real program, record what it wrote (in a forked child)."""
    d = vf.newdir("run")
    try:
        cfg = setup(c, d)
        code, ex = invoke("track", cfg)
        outs = read_outputs(c, d / "out")
        return dict(code=code, error=ex, outs=outs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def go(c, d: Path, out="out", cfgname="config.yaml", **over):
    """Run the program on prepared inputs with some settings replaced; (exit code, error, outputs)."""
    over.setdefault("output_folder", str(d / out))
    cfg = config(c, d, cfgname, **over)
    code, ex = invoke("track", cfg)
    return code, ex, read_outputs(c, d / out) if (d / out).exists() else []


def prepare(c, d: Path):
    write_inputs(c, d / "pre")
    if c["bbox"] is None:
        write_mask(c, d / "mask.nc")


def record(c, outs):
    """The line for the trace file."""
    keep = ("id", "dir", "dt", "tin", "t0", "t1", "kvf", "per", "outf", "tag0", "tag1", "check", "model", "both", "tol", "baltol",
            "m", "n", "lat", "lon", "dlat", "dlon", "init")
    r = {k: c[k] for k in keep}
    r["recs"] = [{k: lol(v) for k, v in q.items()} for q in c["recs"]]
    r["box"] = [int(round(x * 1000)) for x in c["bbox"]] if c["bbox"] is not None else []
    r["masks"] = [dict(t=x["t"], w=lol(x["w"])) for x in c["masks"]]
    r["outs"] = [dict(t=o["t"], **{k: lol(o[k]) for k in ("u", "l", "tag", "rl", "ru", "loss", "gain")}) for o in outs]
    if c["init"]:
        r["init"] = [dict(u=lol(c["init"][0]["u"]), l=lol(c["init"][0]["l"]))]
    return r


def rerun_odd(fn, args, res, timeout):
    """Repeat runs that died or timed out once (machine trouble), alone."""
    odd = [i for i, r in enumerate(res) if r[0] in ("died", "timeout")]
    for part in (odd[:2], odd[2:]):
        for i, r in zip(part, vf.fork_map(fn, [args[i] for i in part], timeout=timeout, nproc=2)):
            res[i] = r
        if all(res[i][0] in ("died", "timeout") for i in part):
            break
    return res


def run_all(cases, fn=run_case, timeout=100):
    res = vf.fork_map(fn, cases, timeout=timeout)
    res = rerun_odd(fn, cases, res, timeout)
    for r in res:
        if r[0] == "exc":
            raise vf.Machinery("recording a run failed:\n" + r[1])
    return res


def check_runs(chk, cases, timeout=100, summary=None):
    """Run all cases and let TLC judge them; reports violations. Returns verdicts by id."""
    res = run_all(cases, timeout=timeout)
    done = []
    for c, r in zip(cases, res):
        if r[0] != "ok":
            chk.violation(f"run {c['id']} ended abnormally: {r}", brief(c))
            continue
        r = r[1]
        if r["code"] != 0:
            chk.violation(f"run {c['id']} failed: {r['error']}", brief(c))
            continue
        done.append((c, r["outs"]))
    return judge_runs(chk, done)


def judge_runs(chk, done):
    """Let TLC judge finished runs: [(case, outputs)]"""
    lines, cases = [], [c for c, _ in done]
    for c, outs in done:
        shapes = {np.shape(o["u"]) for o in outs}
        if shapes - {(c["m"], c["n"])}:
            chk.violation(f"run {c['id']}: outputs on a grid of {shapes}, expected {(c['m'], c['n'])}", brief(c))
            continue
        lines.append(record(c, outs))
    verdict, st, tr = vf.validate("TrackTrace", lines, weight=lambda q: q["m"] * q["n"] * (q["t1"] - q["t0"]) / q["dt"] + 5)
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines),
            outputs_judged=sum(len(q["outs"]) for q in lines))
    byid = {}
    for v in verdict:
        byid.setdefault(v["run"], []).append(v)
    cs = {c["id"]: c for c in cases}
    for q in lines:
        vs = byid.get(q["id"], [])
        if not vs:
            raise vf.Machinery(f"no verdict for {q['id']}")
        if not any(v["ok"] for v in vs):
            b = vs[0]["bad"][0]
            chk.violation(f"run {q['id']} ({q['dir']}): {b['clause']} at output {b['out']} (t={b['t']}), cell ({b['row']},{b['col']}): "
                          f"specified {b['model'] / ONE:.5f}, observed {b['observed'] / ONE:.5f}; {b['cells']} cells", dict(case=brief(cs[q["id"]]), bad=vs[0]["bad"]))
    return byid, lines


def brief(c):
    r = {k: v for k, v in c.items() if k not in ("recs", "masks")}
    r["recs"] = [{k: lol(v) for k, v in q.items()} for q in c["recs"]] if c["m"] * c["n"] <= 40 and len(c["recs"]) <= 8 else "(regenerate with the seed)"
    r["masks"] = [dict(t=x["t"], w=lol(x["w"])) for x in c["masks"]][:3]
    return r
