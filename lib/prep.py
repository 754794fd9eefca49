"""Synthetic raw data for the preprocessor: files, runs, recorded results.

Quantities are integers in the fixed-point format of spec/Fx.tla, in the units of spec/Preprocess.tla.
"""
import glob, os, shutil, zlib
from pathlib import Path
import numpy as np
import vf, track
from track import ONE, NAN, fx, lol, when, iso, freq

# variable -> (factor from model units to SI, ERA5 name, CMIP name, ARCO name)
VARS = dict(q=(0.01, "q", "hus", "specific_humidity"), u=(32, "u", "ua", "u_component_of_wind"), v=(32, "v", "va", "v_component_of_wind"),
            ps=(1e4, "sp", "ps", "surface_pressure"), qs=(None, "d2m", "huss", "2m_dewpoint_temperature"),
            us=(32, "u10", "uas", "10m_u_component_of_wind"), vs=(32, "v10", "vas", "10m_v_component_of_wind"),
            tcw=(1, "tcw", None, "total_column_water"), tp=(1e-3, "tp", None, "total_precipitation"), e=(1e-3, "e", None, "evaporation"))
LEVELVARS = ("q", "u", "v")


def pa(x):
    """Pa -> model units"""
    return np.rint(np.asarray(x, dtype="float64") * ONE / 1e4).astype("int64")


def to_si(name, a, dew):
    a = np.asarray(a, dtype="float64") / ONE
    if name == "qs":
        return a if dew else a * 0.01
    return a * VARS[name][0]


def mk(id, r, source, kind, lat, lon, levels, *, start, end, freq, nraw=None, tcw=False, calendar="standard", base="2021-07-01",
       factor=0.75, offset=7000.0, boundary=111, check=(), whole=False, intlev=False, layout="day", names="old", dtype="f4",
       extralev=(), rawstep=None, cfglevels=None, ps=None, tol=None, dlat=None, dlon=None, tps=None, es=None, extra=None, qmax=1.8, halfpa=False):
    """levels: hPa (pl) or numbers (ml), those to be used; extralev: further ones in the raw files."""
    m, n = len(lat), len(lon)
    c = dict(id=id, source=source, kind=kind, lat=list(map(int, lat)), lon=list(map(int, lon)), start=start, end=end, freq=freq, tcw=tcw or source == "arco",
             calendar=calendar, base=base, factor=factor, offset=offset, boundary=boundary, check=list(check), whole=whole, intlev=intlev,
             layout=layout, names=names, dtype=dtype, dew=source in ("era5", "arco"), extra=extra or {})
    c["dlat"] = dlat or (abs(lat[1] - lat[0]) if m > 1 else 0)
    c["dlon"] = dlon or abs(lon[1] - lon[0])
    c["levels"], c["filelevels"] = list(levels), list(levels) + list(extralev)
    c["cfglevels"] = cfglevels if cfglevels is not None else list(levels)
    nl = len(c["filelevels"])
    c["tol"] = tol or ((300 if c["dew"] and kind == "pl" else 120) + 12 * nl) * (4 if c["tcw"] else 1)   # scaling multiplies the rounding
    step = 21600 if source == "cmip" else rawstep or freq
    times = range(start % step if source != "cmip" else 0, end + step + (step if rawstep else 0), step)
    c["raw"] = []
    for t in times:
        R = dict(t=int(t))
        q = lambda a: np.rint(np.asarray(a) * ONE)
        R["q"] = q(r.uniform(0.3 if c["tcw"] else 0, qmax, (nl, m, n)))
        R["u"] = q(r.uniform(-0.9, 0.9, (nl, m, n)))
        R["v"] = q(r.uniform(-0.9, 0.9, (nl, m, n)))
        p = r.choice(ps, (m, n)) if ps is not None else r.integers(56000 // 4, 104000 // 4, (m, n)) * 4
        p = np.where(np.isin(p, np.array(list(levels) + list(extralev)) * 100), p + 4, p)   # not on a level
        if halfpa:
            p = p + 0.5
        R["pspa"] = p.astype("float64")
        R["ps"] = pa(p)
        R["us"] = q(r.uniform(-0.9, 0.9, (m, n)))
        R["vs"] = q(r.uniform(-0.9, 0.9, (m, n)))
        R["qs"] = q(np.rint(r.uniform(270, 300, (m, n)) * 64) / 64) if c["dew"] else q(r.uniform(0, qmax, (m, n)))
        R["tcw"] = q(r.uniform(5, 100, (m, n)))
        R["tp"] = q(tps(r, m, n) if tps else np.where(r.random((m, n)) < 0.3, r.choice([0, -0.02], (m, n)), r.uniform(0, 20, (m, n))))
        R["e"] = q(es(r, m, n) if es else np.where(r.random((m, n)) < 0.3, r.uniform(0, 1, (m, n)), -r.uniform(0, 3, (m, n))))
        c["raw"].append(R)
    if source == "cmip":
        k = 2 * len(c["raw"])
        sgn = np.repeat(r.choice([-1, 1, 1], (k // 2, m, n)), 2, axis=0)
        c["pr"] = np.rint(r.uniform(0, 10, (k, m, n)) * ONE) * np.where(r.random((k, m, n)) < 0.2, 0, 1)
        neg = np.repeat(r.random((k // 2, m, n)) < 0.1, 2, axis=0)
        c["pr"] = np.where(neg, -np.abs(c["pr"]) / 100, c["pr"]).round()
        c["hf"] = np.rint(r.uniform(0, 600, (k, m, n)) * ONE) * sgn
    return c


# ---------------------------------------------------------------- files
def _write(path, c, times, name, dims, data, levels=None, names="old", attrs=None, scalar=None, levname=None):
    import netCDF4
    path.parent.mkdir(parents=True, exist_ok=True)
    if path.exists():
        path.unlink()
    old = names == "old"
    tn = "time" if old else "valid_time"
    ln = levname or ("level" if old else ("pressure_level" if c["kind"] == "pl" else "model_level"))
    lat, lon = ("lat", "lon") if c["source"] == "cmip" else ("latitude", "longitude")
    ren = dict(time=tn, level=ln, latitude=lat, longitude=lon) | c.get("rename", {}).get(name, {})
    with netCDF4.Dataset(path, "w") as nc:
        nc.createDimension(ren["time"], len(times))
        v = nc.createVariable(ren["time"], "f8", (ren["time"],))
        v.units, v.calendar = "hours since 1900-01-01", c["calendar"]
        v[:] = netCDF4.date2num([when(c, s) for s in times], v.units, calendar=c["calendar"])
        cf = "f4" if c["source"] == "era5" and old else "f8"
        for nm, d in (("latitude", c["lat"]), ("longitude", c["lon"])):
            if nm in dims:
                nc.createDimension(ren[nm], len(d))
                v = nc.createVariable(ren[nm], cf, (ren[nm],)); v[:] = np.array(d) / 1000
        if levels is not None:
            nc.createDimension(ren["level"], len(levels))
            v = nc.createVariable(ren["level"], "i4" if c["intlev"] or c["kind"] == "ml" else "f8", (ren["level"],))
            v[:] = levels
        for nm in dims:
            if nm not in ("time", "latitude", "longitude", "level"):
                nc.createDimension(nm, data.shape[dims.index(nm)])
        if scalar:
            v = nc.createVariable(scalar[0], "f8", ()); v[:] = scalar[1]
        v = nc.createVariable(name, c["dtype"], tuple(ren.get(x, x) for x in dims), fill_value=np.nan)
        if scalar:
            v.coordinates = scalar[0]
        v[:] = data


def alter(c, name, t, a, dims):
    """hook for planted defects: c['poison'] = list of (name, t, index, value)"""
    for (nm, tt, idx, val) in c.get("poison", []):
        if nm == name and (tt is None or tt == t):
            a = np.array(a, dtype="float64")
            a[idx] = val
    return a


def redim(c, name, data, dims):
    """planted defects: a dimension lost or one too many"""
    if name in c.get("dropdim", {}):
        ax = dims.index(c["dropdim"][name])
        data, dims = data.take(0, axis=ax), tuple(y for y in dims if y != c["dropdim"][name])
    if name in c.get("adddim", {}):
        data, dims = np.stack([data, data], axis=1), (dims[0], c["adddim"][name]) + dims[1:]
    return data, dims


def write_raw(c, d: Path):
    """Returns the filename template."""
    raw = d / "raw"
    raw.mkdir(parents=True, exist_ok=True)
    if c["source"] == "era5":
        lay = dict(day=lambda s: when(c, s).strftime("%Y-%m-%d"), month=lambda s: when(c, s).strftime("%Y%m"), one=lambda s: "all")[c["layout"]]
        tmpl = dict(day="{year}-{month:02}-{day:02}", month="{year}{month:02}", one="all")[c["layout"]]
        groups = {}
        for R in c["raw"]:
            groups.setdefault(lay(R["t"]), []).append(R)
        need = ["q", "u", "v", "ps", "tp", "e"] + (["qs", "us", "vs"] if c["kind"] == "pl" else []) + (["tcw"] if c["tcw"] else [])
        for key, Rs in groups.items():
            for x in need:
                name = VARS[x][1]
                if (name, key) in c.get("absent", []) or (name, None) in c.get("absent", []):
                    continue
                RR = [R for R in Rs if (name, R["t"]) not in c.get("absenttime", [])]
                lev = x in LEVELVARS
                dims = ("time", "level", "latitude", "longitude") if lev else ("time", "latitude", "longitude")
                order = c.get("levorder") or list(range(len(c["filelevels"])))
                arr = []
                for R in RR:
                    a = R["pspa"] if x == "ps" else to_si(x, R[x], c["dew"])
                    a = a[order] if lev else a
                    arr.append(alter(c, name, R["t"], a, dims))
                data = np.array(arr) if arr else np.zeros((0,) + a.shape)
                levels = [c["filelevels"][k] for k in order] if lev else None
                if lev and name in c.get("droplev", {}):
                    keep = [k for k, l in enumerate(levels) if l != c["droplev"][name]]
                    data, levels = data[:, keep], [levels[k] for k in keep]
                data, dims = redim(c, name, data, dims)
                levels = levels if "level" in dims else None
                lt = ("_ml" if c["kind"] == "ml" else "_pl") if lev else ""
                _write(raw / f"ERA5_{key}{lt}_{name}.nc", c, [R["t"] for R in RR], name, dims, data, levels, names=c["names"],
                       scalar=("number", 0) if c["names"] == "new" else None, levname=c.get("levname"))
        return str(raw / ("ERA5_" + tmpl + "{levtype}_{variable}.nc"))
    if c["source"] == "cmip":
        parts = c.get("parts", 1)
        cut = [k * (len(c["raw"]) // parts // 4 * 4 or len(c["raw"])) for k in range(parts)] + [len(c["raw"])]
        for x in ("q", "u", "v", "ps", "qs", "us", "vs"):
            name = VARS[x][2]
            if (name, None) in c.get("absent", []):
                continue
            lev = x in LEVELVARS
            for k in range(parts):
                Rs = [R for R in c["raw"][cut[k]:cut[k + 1]] if (name, R["t"]) not in c.get("absenttime", [])]
                if not Rs:
                    continue
                dims = ("time", "level", "latitude", "longitude") if lev else ("time", "latitude", "longitude")
                extra = c.get("cmiplev", {}).get(x, [])      # a further level only this variable has
                levels = [l * 100.0 for l in c["filelevels"]] + [l * 100.0 for l in extra] if lev else None
                arr = []
                for R in Rs:
                    a = R["pspa"] if x == "ps" else to_si(x, R[x], False)
                    if lev and extra:
                        a = np.concatenate([a] + [a[:1] * 0.3 for _ in extra])
                    arr.append(alter(c, name, R["t"], a, dims))
                data = np.array(arr)
                data, dims = redim(c, name, data, dims)
                levels = levels if "level" in dims else None
                _write(raw / f"{name}_6hr_{k}.nc", c, [R["t"] for R in Rs], name, dims, data, levels, levname="plev",
                       scalar=("height", 2.0 if x == "qs" else 10.0) if x in ("qs", "us", "vs") else None)
        for name, key, unit in (("pr", "pr", 1 / 3600), ("hfls", "hf", 1.0)):
            if (name, None) in c.get("absent", []):
                continue
            off = c.get("fluxoffset", 5400)
            for k in range(parts):
                a = c[key][2 * cut[k]:2 * cut[k + 1]] / ONE * unit
                if not len(a):
                    continue
                ts = [off + 10800 * q for q in range(2 * cut[k], 2 * cut[k + 1])]
                a = np.array([alter(c, name, t, b, ()) for t, b in zip(ts, a)])
                dims = ("time", "latitude", "longitude")
                a, dims = redim(c, name, a, dims)
                _write(raw / f"{name}_3hr_{k}.nc", c, ts, name, dims, a)
        return str(raw / "{variable}_*.nc")
    return "unused"


def zarr(c):
    """The ARCO-ERA5 store as an in-memory dataset."""
    import xarray as xr
    times = [when(c, R["t"]) for R in c["raw"]]
    order = c.get("levorder") or list(range(len(c["filelevels"])))
    ds = {}
    full = (len(times), len(c["lat"]), len(c["lon"]))
    for x, (f, _, _, name) in VARS.items():
        lev = x in LEVELVARS
        dims = ("time", "level", "latitude", "longitude") if lev else ("time", "latitude", "longitude")
        data = np.array([alter(c, name, R["t"], R["pspa"] if x == "ps" else to_si(x, R[x], True)[order] if lev else to_si(x, R[x], True), dims) for R in c["raw"]])
        data, dims = redim(c, name, data, dims)
        ren = c.get("rename", {}).get(name, {})
        ds[name] = (tuple(ren.get(y, y) for y in dims), data.astype(c["dtype"]))
    ds["2m_temperature"] = (("time", "latitude", "longitude"), np.full(full, 290.0))
    ds["unrelated"] = ("time", np.zeros(len(times)))
    out = xr.Dataset(ds, coords=dict(time=xr.CFTimeIndex([x for x in map(_sub, times)]), level=[c["filelevels"][k] for k in order],
                                     latitude=np.array(c["lat"]) / 1000, longitude=np.array(c["lon"]) / 1000))
    if c.get("droplev"):
        gone = list(c["droplev"].values())
        out = out.sel(level=[l for l in out["level"].values if l not in gone])
    out.attrs.update(valid_time_start=times[0].strftime("%Y-%m-%d"), valid_time_stop=times[-1].strftime("%Y-%m-%d"))
    return out


def _sub(t):
    import cftime
    return cftime.DatetimeProlepticGregorian(*t.timetuple()[:6])


def config(c, d: Path, template, cfgname="config.yaml", **over):
    import yaml
    cfg = dict(filename_template=template, preprocessed_data_folder=str(d / "pre"), tracking_direction="backward",
               tagging_region=[0, 0, 10, 10], output_folder=str(d / "out"), calendar=c["calendar"],
               preprocess_start_date=iso(c, c["start"]), preprocess_end_date=iso(c, c["end"]),
               tracking_start_date=iso(c, c["start"]), tracking_end_date=iso(c, c["end"]),
               tagging_start_date=iso(c, c["start"]), tagging_end_date=iso(c, c["end"]),
               input_frequency=freq(c["freq"]), timestep=600, output_frequency="1h", level_type="model_levels" if c["kind"] == "ml" else "pressure_levels",
               levels=c["cfglevels"], restart=False, periodic_boundary=False, kvf=3,
               level_layer_boundary=c["boundary"], pressure_boundary_factor=c["factor"], pressure_boundary_offset=c["offset"])
    cfg.update(c["extra"])
    cfg.update(over)
    if cfg["levels"] is not None and not isinstance(cfg["levels"], str):
        cfg["levels"] = [int(x) for x in cfg["levels"]]
    p = d / cfgname
    p.write_text(yaml.safe_dump(cfg))
    return p


def read_file(f, c):
    import netCDF4, cftime
    with netCDF4.Dataset(f) as nc:
        nc.set_auto_mask(False)
        tv = nc["time"]
        ts = [list(x.timetuple()[:6]) for x in np.atleast_1d(cftime.num2date(tv[:], tv.units, calendar=tv.calendar))]
        rows = []
        md = lambda a: [int(round(float(x) * 1000)) for x in np.ravel(a)]
        sc = dict(su=("s_upper", 1), sl=("s_lower", 1), xu=("fx_upper", 1 / 32), xl=("fx_lower", 1 / 32), yu=("fy_upper", 1 / 32), yl=("fy_lower", 1 / 32),
                  e=("evap", 3600), p=("precip", 3600))
        for k in range(len(ts)):
            row = {}
            for short, (name, s) in sc.items():
                dims = nc[name].dimensions
                a = nc[name][k] if dims[0] == "time" else nc[name][:]
                if dims[-2:] == ("longitude", "latitude"):
                    a = a.T
                row[short] = lol(fx(np.asarray(a, dtype="float64") * s))
            rows.append(row)
        crc = 0
        for v in sorted(nc.variables):
            crc = zlib.crc32(np.ascontiguousarray(nc[v][:]).tobytes(), zlib.crc32(v.encode(), crc))
        bn = lambda v: [[int(round(float(y) * 1000)) for y in x] for x in nc[v][:]]
        y, mo, dd = os.path.basename(f).split("_")[0].split("-")
        return dict(name=[int(y), int(mo), int(dd)], times=ts, lat=md(nc["latitude"][:]), lon=md(nc["longitude"][:]),
                    latb=bn("latitude_bnds"), lonb=bn("longitude_bnds"), rows=rows, dig=crc >> 1, cal=getattr(tv, "calendar", "standard"))


def read_dir(c, pre: Path):
    """(day files in order, number of unexpected files)"""
    files, other = [], 0
    for f in sorted(glob.glob(str(pre / "*"))):
        b = os.path.basename(f)
        if b.endswith("_fluxes_storages.nc"):
            files.append(read_file(f, c))
        elif not (b.endswith(".log") or b.endswith(".yaml")):
            other += 1
    return files, other


def invoke(c, cfg):
    if c["source"] == "arco":
        import xarray as xr
        ds = zarr(c)
        keep = xr.open_zarr
        xr.open_zarr = lambda *a, **k: ds.copy()
        try:
            return track.invoke("preprocess", "arco-era5", cfg)
        finally:
            xr.open_zarr = keep
    return track.invoke("preprocess", c["source"], cfg)


def run_case(c):
    d = vf.newdir("prep")
    try:
        t = write_raw(c, d)
        cfg = config(c, d, t)
        code, err = invoke(c, cfg)
        files, other = read_dir(c, d / "pre")
        again = None
        if c.get("again"):
            code2, err2 = invoke(c, cfg)
            f2, o2 = read_dir(c, d / "pre")
            again = dict(code=code2, same=[x["dig"] for x in files] == [x["dig"] for x in f2] and other == o2)
        return dict(code=code, error=err, files=files, other=other, again=again)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def line(c, res, named=True):
    r = {k: c[k] for k in ("id", "source", "kind", "calendar", "start", "end", "freq", "lat", "lon", "dlat", "dlon", "dew", "tcw", "tol", "whole", "boundary", "check")}
    r["base"] = [int(x) for x in c["base"].split("-")]
    r["factor"], r["offset"] = int(round(c["factor"] * ONE)), int(pa(c["offset"]))
    nl = len(c["levels"])
    r["levels"] = lol(pa(np.array(c["levels"]) * 100.0)) if c["kind"] == "pl" else list(map(int, c["levels"]))
    need = {"ps", "q", "u", "v", "us", "vs", "qs", "tcw", "tp", "e"}
    column = "column" in c["check"]
    r["raw"] = []
    for R in c["raw"]:
        o = dict(t=R["t"])
        for x in need:
            if x in ("tp", "e") or column:
                o[x] = lol(R[x][:nl] if x in LEVELVARS else R[x])
        r["raw"].append(o)
    if c["source"] == "cmip":
        r["pr"], r["hf"] = lol(c["pr"]), lol(c["hf"])
    r["faults"] = c.get("faults", [])
    r["code"], r["named"] = res["code"], named
    r["files"], r["other"] = res["files"], res["other"]
    return r


def judge(chk, cases, results, named=None, parts=vf.NPROC, finding=None):
    lines, cs = [], {}
    for c, r in zip(cases, results):
        if r[0] != "ok":
            chk.violation(f"{c['id']} ended abnormally: {r}", brief(c))
            continue
        r = r[1]
        if r["code"] != 0 and not c.get("faults"):
            chk.violation(f"{c['id']} ({c['source']}, {c['kind']}): preprocessing complete data failed: {r['error']}", brief(c))
            continue
        if r.get("again") and not (r["again"]["code"] == 0 and r["again"]["same"]):
            chk.violation(f"{c['id']}: preprocessing again gave other files", brief(c))
        lines.append(line(c, r, named(c, r) if named else True))
        cs[c["id"]] = c
    verdict, st, tr = vf.validate("PrepTrace", lines, parts=parts, weight=lambda q: len(q["lat"]) * len(q["lon"]) * (len(q["raw"]) + 1) * (len(q["levels"]) + 4))
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines), times_judged=sum(v["times"] for v in verdict))
    got = {v["run"]: v for v in verdict}
    for q in lines:
        v = got.get(q["id"])
        if v is None:
            raise vf.Machinery(f"no verdict for {q['id']}")
        if not v["ok"]:
            b = v["bad"][0]
            chk.violation(f"{q['id']} ({q['source']}, {q['kind']}): {b['clause']} at t={b['t']}, cell {b['cell']} ({b['cells']} cells): specified {str(b['model'])[:200]}, "
                          f"observed {str(b['observed'])[:200]}", dict(case=brief(cs[q["id"]]), bad=v["bad"]))
        elif v["whole"]:
            chk.finding("integer-pressure", f"{q['id']}: pressures truncated to whole Pa")
    return got


def brief(c):
    return {k: v for k, v in c.items() if k not in ("raw", "pr", "hf")}
