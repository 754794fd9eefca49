"""What files say about themselves (C37, FilesTrace.tla)."""
import os, re, shutil
from pathlib import Path
import numpy as np
import vf, prep, track, rel
from track import ONE
from transport import rng, pick, general, both_dirs, ring_grid, some_grid, with_domain
from relations import in_dir

WORDS = re.compile(r"[^\s;,]+")


def words(x):
    return [y for y in (w.strip('.') for w in WORDS.findall(str(x))) if y]


def describe(f, name):
    import netCDF4
    with netCDF4.Dataset(f) as nc:
        nc.set_auto_mask(False)
        at = lambda v, a: getattr(nc[v], a, "") if v in nc.variables else ""
        deg = lambda v: [int(round(float(x) * 1e6)) for x in np.ravel(nc[v][:])] if v in nc.variables else []
        bn = lambda v: [[int(round(float(y) * 1e6)) for y in np.ravel(x)] for x in nc[v][:]] if v in nc.variables else []
        return dict(name=name, vars=[dict(name=v, dims=list(nc[v].dimensions), units=words(at(v, "units")), long=[w.lower() for w in words(at(v, "long_name"))]) for v in nc.variables],
                    lat=deg("latitude"), lon=deg("longitude"), latb=bn("latitude_bnds"), lonb=bn("longitude_bnds"), calendar=at("time", "calendar") or "standard",
                    conventions=words(getattr(nc, "Conventions", "")), title=words(getattr(nc, "title", "")), history=words(getattr(nc, "history", "")), source=words(getattr(nc, "source", "")))


def micro(x):
    return [micro(y) for y in x] if isinstance(x, (list, tuple, np.ndarray)) else int(round(float(x) * 1000))


def entry(c, kind, files, *, lat, lon, silent=False, source="", history=""):
    import wam2layers
    return dict(id=f"{c['id']}/{kind}", kind=kind, dir=c.get("dir", "backward"), lat=micro(lat), lon=micro(lon), dlat=micro(c["dlat"]), dlon=micro(c["dlon"]), calendar=c["calendar"], silent=silent,
                version=words(wam2layers.__version__)[0], source=words(source), history=words(history),
                files=[describe(f, os.path.basename(f)) for f in files])


# names of sources of data as they appear in the wild
SOURCES = ["ECMWF Reanalysis v5 (ERA5), www.ecmwf.int/en/forecasts/dataset/ecmwf-reanalysis-v5", "model: X-y 3.1; run r1i1p1f1", ""]
HISTORIES = ["created on 2021-07-01T00:00:00Z using wam2layers version 2.9.9.", "Mon Jul 5 2021: ncks -O a.nc b.nc\nearlier: cdo -selvar", ""]


@in_dir
def outputs(c, d):
    track.prepare(c, d)
    import netCDF4
    for f in (d / "pre").glob("*.nc"):
        with netCDF4.Dataset(f, "a") as nc:
            for a in ("source", "history"):
                if c[a]:
                    setattr(nc, a, c[a])
    code, ex, A = track.go(c, d)
    if code:
        return dict(errors=[f"run failed: {ex}"])
    fs = sorted((d / "out").glob("*track_*.nc"))
    lines = [entry(c, "output", fs, lat=c["lats"], lon=c["lons"], source=c["source"], history=c["history"])]
    if c["restart"] and len(A) > 1:
        o = A[len(A) // 2]
        q = dict(c, id=c["id"] + "/restart", **({"t0": o["t"]} if c["dir"] == "forward" else {"t1": o["t"]}))
        code, ex, B = track.go(q, d, restart=True)
        if code:
            return dict(errors=[f"restart failed: {ex}"])
        lines.append(entry(q, "output", sorted((d / "out").glob("*track_*.nc")), lat=c["lats"], lon=c["lons"], source=c["source"], history=c["history"]))
    return dict(lines=lines)


@in_dir
def inputs(c, d):
    t = prep.write_raw(c, d)
    code, err = prep.invoke(c, prep.config(c, d, t))
    if code:
        return dict(errors=[f"preprocessing failed: {err}"])
    norm = lambda x: ((x + 180000) % 360000) - 180000
    lon = sorted(map(norm, c["lon"]) if any(x > 180000 or x < 0 for x in c["lon"]) else c["lon"])
    return dict(lines=[entry(c, "input", sorted((d / "pre").glob("*_fluxes_storages.nc")), lat=sorted(c["lat"], reverse=True), lon=lon, silent=c["source"] == "cmip")])


def c37(chk):
    r = rng(37)
    cals = ["standard", "noleap", "360_day", "all_leap", "julian", "proleptic_gregorian", "gregorian", "365_day", "366_day"]
    cases = []
    for k in range(120 if vf.THOROUGH else 40):
        form = k % 4
        if form == 0:
            g = ring_grid(r, n=int(pick(r, 4, 8, 12)))
        elif form == 1:      # few columns of the globe, on both sides of the antimeridian
            step = int(pick(r, 1000, 1125, 1875, 2500, 5000))
            g = ring_grid(r, n=360000 // step, m=int(pick(r, 3, 4)))
        else:
            g = some_grid(r, spacings=(125, 703, 1125, 500, 2000))
        c = general(r, f"told{k}", both_dirs(k), [], model=False, g=g, per=form == 0, nrec=int(pick(r, 3, 4)), dts=(1200, 1800, 3600), window=k % 5 == 0, outf=int(pick(r, 1, 2)),
                    masks=[dict(t=0, w=np.full((g["m"], g["n"]), ONE // 2))])
        c["calendar"] = cals[k % 9]
        c["lats"], c["lons"] = c["lat"], c["lon"]
        if form == 1:
            n, a = int(pick(r, 2, 3, 3, 4, 5)), sorted(c["lon"])
            w = int(r.integers(1, n))
            c["lons"] = a[-w:] + a[:n - w]
            norm = lambda x: ((x + 180) % 360) - 180
            c["domain"] = [norm((c["lons"][0] - c["dlon"] / 4) / 1000), c["lat"][-1] / 1000, norm((c["lons"][-1] + c["dlon"] / 4) / 1000), c["lat"][0] / 1000]
        elif form == 3:
            with_domain(r, c)
        else:                # spacings with any number of decimals
            for v, top, sg in (("lat", 55, -1), ("lon", 130, 1)):
                to = c["d" + v] = float(pick(r, c["d" + v], 703.125, 1000 / 3, 62.5, 1121.0625, 50.12345))
                at = float(r.integers(-top, top)) * 1000 + float(pick(r, 0, to / 2))
                c[v] = [at + sg * i * to for i in range(len(c[v]))]
            c["lats"], c["lons"] = c["lat"], c["lon"]
        if k % 3 == 1:       # begins and ends beside the times of the data
            c["t0"] += c["dt"] % c["tin"] if c["dt"] < c["tin"] else 0
            c["t1"] -= c["dt"] % c["tin"] if c["dt"] < c["tin"] else 0
            c["tag0"], c["tag1"] = c["t0"], c["t1"]
        c["source"], c["history"] = SOURCES[k % 3], HISTORIES[(k // 2) % 3]
        c["restart"] = k % 7 == 0
        cases.append(c)
    lines, _ = rel.jobs(chk, outputs, cases)
    from preprocessing import shifted_grid
    raws = []
    for k in range(40 if vf.THOROUGH else 15):
        lat, lon, dlat, dlon = shifted_grid(r, k)
        src = ("era5", "cmip", "arco", "era5", "era5")[k % 5]
        kind = "ml" if src == "era5" and k % 2 else "pl"
        freq = 21600 if src == "cmip" else int(pick(r, 3600, 10800, 43200))
        start = 21600 if src == "cmip" else 0
        raws.append(prep.mk(f"{src}{k}", r, src, kind, lat, lon, [100, 137] if kind == "ml" else [500, 850], start=start, end=start + freq * int(r.integers(1, 5)), freq=freq,
                            calendar="proleptic_gregorian" if src == "arco" else cals[k % 9], base=pick(r, "2021-07-01", "2020-02-28"), names=pick(r, "old", "new"), dlat=dlat, dlon=dlon))
    more, _ = rel.jobs(chk, inputs, raws)
    lines += more
    verdict, st, tr = vf.validate("FilesTrace", lines, weight=lambda q: len(q["files"]) * 10)
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines), files_judged=sum(v["files"] for v in verdict), quantities_judged=sum(v["quantities"] for v in verdict))
    chk.sample([q["id"] for q in lines][:8])
    for v in verdict:
        if not v["ok"]:
            b = v["bad"][0]
            chk.violation(f"{v['run']}: {b['file']}: {b['clause']} {b['what']}: specified {str(b['model'])[:200]}, observed {str(b['observed'])[:300]}", dict(bad=v["bad"]))
