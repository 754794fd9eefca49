"""The tagging region designer (regionmask, geopandas and cartopy are replaced by stand-ins)."""
import json, shutil, sys, types
import numpy as np
import vf, track, rel
from track import ONE, lol
from transport import rng, pick, some_grid, both_dirs


def stand_ins():
    """named regions as boxes: only what the designer needs of those packages"""
    import xarray as xr

    class Regions:
        def __init__(self, boxes, first):
            self.boxes, self.first = boxes, first

        def mask_3D(self, lon_or_obj, lat=None, *, drop=True, **k):
            if lat is None:
                lon_or_obj, lat = lon_or_obj["longitude" if "longitude" in lon_or_obj.coords else "lon"], lon_or_obj["latitude" if "latitude" in lon_or_obj.coords else "lat"]
            lon, lat = np.asarray(lon_or_obj), np.asarray(lat)
            m = []
            for w, s, e, n in self.boxes:
                w, e, x = (w / 1000) % 360, (e / 1000) % 360, lon % 360
                cols = (x >= w) & (x <= e) if w <= e else (x >= w) | (x <= e)
                rows = (lat >= s / 1000) & (lat <= n / 1000)
                m.append(rows[:, None] & cols[None, :])
            m = np.array(m)
            num = np.arange(len(m)) + self.first
            da = xr.DataArray(m, dims=("region", "lat", "lon"), coords=dict(region=num, lat=lat, lon=lon))
            return da.isel(region=np.flatnonzero(m.any(axis=(1, 2)))) if drop else da

    rm = types.ModuleType("regionmask")
    rm.defined_regions = types.SimpleNamespace()
    rm.mask_3D_geopandas = lambda shp, lon, lat=None, *, drop=True, **k: Regions(shp, 0).mask_3D(lon, lat, drop=drop)
    rm.Regions = Regions
    gp = types.ModuleType("geopandas")
    gp.read_file = lambda f, *a, **k: json.load(open(f))
    sys.modules.update(regionmask=rm, geopandas=gp)
    try:
        import cartopy.crs, cartopy.feature  # noqa: F401
    except ImportError:
        ct, cr, fe = (types.ModuleType(x) for x in ("cartopy", "cartopy.crs", "cartopy.feature"))
        ct.crs, ct.feature = cr, fe
        sys.modules.update({"cartopy": ct, "cartopy.crs": cr, "cartopy.feature": fe})
    return rm


def design(c):
    import xarray as xr, netCDF4
    d = vf.newdir("des")
    try:
        rm = stand_ins()
        from wam2layers.utils import tagging_region as tr
        q = c["design"]
        lat, lon = np.array(c["glat"]) / 1000, np.array(c["glon"]) / 1000
        ref = d / "reference.nc"
        xr.Dataset(dict(evap=(("latitude", "longitude"), np.zeros((len(lat), len(lon))))), coords=dict(latitude=lat.astype(c["dtype"]), longitude=lon.astype(c["dtype"]))).to_netcdf(ref)
        f = d / "region.nc"
        times = [np.datetime64(track.when(c, t).strftime("%Y-%m-%dT%H:%M:%S")) for t in q["times"]]
        pts = [(y / 1000, x / 1000) for y, x in q.get("points", [])]
        sel = q.get("selected", [0])
        sel = sel[0] if q.get("bare") else sel
        try:
            if q["kind"] == "point":
                tr.mask_around_point(pts[0], q["radius"] / 1000, str(ref), str(f), False)
            elif q["kind"] == "track":
                tr.mask_around_track(pts, times, q["radius"] / 1000, str(ref), str(f), False)
            elif q["source"] == "shapefile":
                (d / "shape.shp").write_text(json.dumps(q["boxes"]))
                tr.mask_with_shapefile(str(d / "shape.shp"), False if q["single"] else sel, str(ref), str(f), False)
            else:
                regs = rm.Regions(q["boxes"], 1 if q["source"] in ("giorgi", "srex", "prudence") else 0)
                ns = rm.defined_regions
                if q["source"].startswith("ar6."):
                    ns.ar6 = types.SimpleNamespace(**{q["source"][4:]: regs})
                elif q["source"] != "unheard":
                    setattr(ns, q["source"], regs)
                tr.mask_with_regionmask(q["source"], sel, str(ref), str(f), False)
            ok, err = True, None
        except Exception as ex:  # noqa: BLE001
            ok, err = False, f"{type(ex).__name__}: {ex}"
        file, run = [], []
        if f.exists():
            with xr.open_dataset(f) as ds:
                names = list(ds.data_vars)
                if len(names) != 1:
                    return dict(errors=[f"region file holds {names}"])
                v = ds[names[0]]
                dyn = "time" in v.dims
                v = v.transpose("time", "latitude", "longitude") if dyn else v.transpose("latitude", "longitude")
                w = np.asarray(v.values, dtype="f8").reshape((-1, v.sizes["latitude"], v.sizes["longitude"]))
                ts = []
                if dyn:
                    b = np.datetime64(track.when(c, 0).strftime("%Y-%m-%dT%H:%M:%S"))
                    ts = [int((x - b) / np.timedelta64(1, "s")) for x in v["time"].values]
                mi = lambda a: [int(round(float(x) * 1000)) for x in a.values]
                file = [dict(w=lol(track.fx(w)), lat=mi(v["latitude"]), lon=mi(v["longitude"]), dynamic=dyn, times=ts)]
            if c["track"]:
                track.write_inputs(c, d / "pre")
                code, ex, outs = track.go(c, d, tagging_region=str(f))
                step = c["dt"] if c["dir"] == "forward" else -c["dt"]
                t, steps = (c["t0"] if step > 0 else c["t1"]), []
                while c["t0"] <= t + step <= c["t1"]:
                    steps.append(t)
                    t += step
                run = [dict(ok=code == 0, steps=steps, tagged=lol(sum(o["tag"] for o in outs)) if outs else [])]
                err = err or ex
        return dict(lines=[dict(id=c["id"], lat=c["glat"], lon=c["glon"], design=dict(q, points=[list(p) for p in q.get("points", [])]), ok=ok, error=str(err), file=file, run=run)])
    finally:
        shutil.rmtree(d, ignore_errors=True)


SOURCES = ("giorgi", "srex", "prudence", "ar6.all", "shapefile", "shapefile")


def c30_case(r, k):
    kind = ("point", "track", "named")[k % 3]
    use = k % 2 == 0
    if use:
        while True:
            g = some_grid(r, m=int(r.integers(4, 8)), n=int(r.integers(4, 9)))
            if kind != "track" or True:
                break
        if k % 4 == 0 and r.random() < 0.6:      # across the antimeridian
            g = track.grid(g["m"], g["n"], lat0=g["lat"][0], dlat=g["dlat"], lon0=180000 - g["dlon"] * int(r.integers(1, g["n"])), dlon=g["dlon"])
        glat, glon = g["lat"], g["lon"]
    else:
        m, n = int(r.integers(3, 9)), int(r.integers(4, 13))
        step = int(pick(r, 500, 1000, 2500))
        lat0 = int(r.integers(-80, 60)) * 1000
        glat = [lat0 + i * step for i in range(m)]
        if r.random() < 0.6:
            glat = glat[::-1]
        if r.random() < 0.4:     # all around the globe
            n = 24
            step2 = 15000
            lon0 = int(pick(r, 0, -180000, 7500))
        else:
            step2, lon0 = step, int(pick(r, 0, -180000, 350000 if step * n <= 9000 else 100000, -30000, 170000))
        glon = [lon0 + j * step2 for j in range(n)]
        g = dict(m=m, n=n, lat=glat, lon=glon, dlat=step, dlon=step2)
    m, n = len(glat), len(glon)
    one = np.full((m, n), ONE)
    nrec, tin = 5, 3600
    recs = [dict(xu=one * 0, xl=one * 0, yu=one * 0, yl=one * 0, su=one * 100, sl=one * 100, e=one, p=one) for _ in range(nrec)]
    c = track.mk_case(f"{kind}{k}", g, recs, dir=both_dirs(k // 2), dt=int(pick(r, 1800, 3600)), tin=tin, kvf=0, bbox=[0, 0, 1, 1], masks=[dict(t=0, w=one)], model=False,
                      outf=3600)
    c["track"], c["glat"], c["glon"], c["dtype"] = use, glat, glon, pick(r, "f4", "f8")
    some = lambda: (int(r.choice(glat)) + int(pick(r, 0, 0, 100, -250, 500)), int(r.choice(glon)) + int(pick(r, 0, 0, 100, -250, 500)) + int(pick(r, 0, 0, 0, 360000, -360000)))
    q = dict(kind=kind, times=[], points=[], radius=0, bare=False, source="", selected=[], boxes=[], single=False)
    if kind in ("point", "track"):
        # beside cell centres, except for numbers that are exact in binary
        exact = all(x % 125 == 0 for x in glat + glon)
        pts = []
        for _ in range(1 if kind == "point" else int(r.integers(1, 6))):
            y, x = some()
            pts.append([y, ((x + 180000) % 360000) - 180000 if r.random() < 0.7 else x])
        q["points"] = pts
        q["radius"] = int(pick(r, g["dlat"], 2 * g["dlon"], g["dlon"] // 2, g["dlat"] * 3 // 2, 250, 10)) + (0 if exact else 3)
        if any(p[0] % 125 or p[1] % 125 for p in pts):
            q["radius"] = q["radius"] // 100 * 100 + 57      # no cell centre on the edge
        if kind == "track":
            s = int(pick(r, 3600, 7200, 1800))
            q["times"] = [i * s + 411 - s for i in range(len(pts))]
    else:
        nb = int(r.integers(3, 7))
        boxes = []
        for b in range(nb):
            if b % 2 == 0 or r.random() < 0.5:      # on the grid
                y0, y1 = sorted(int(x) for x in r.choice(glat, 2))
                a, b_ = sorted(int(x) for x in r.choice(np.arange(n), 2))
                boxes.append([glon[a] - 100, y0 - 100, glon[b_] + 100, y1 + 100])
            else:                                   # somewhere else
                y = -89000 if min(glat) > -85000 else 85000
                boxes.append([0, y, 5000, y + 2000])
        boxes = [boxes[i] for i in r.permutation(nb)]
        src = SOURCES[(k // 3) % 6]
        if k % 11 == 10:
            src = pick(r, "ar6.land", "ar6.ocean", "unheard")
        first = 1 if src in ("giorgi", "srex", "prudence") else 0
        sel = [int(x) + first for x in r.choice(nb, int(r.integers(1, min(4, nb) + 1)), replace=False)]
        q.update(source=src, boxes=boxes, selected=sel, bare=k % 13 == 12)
        if src == "shapefile" and k % 4 == 1 and not q["bare"]:
            q.update(single=True, selected=[0])
        if q["bare"] and src == "shapefile" and sel[0] == 0:
            q["selected"] = [1]
    c["design"] = q
    return c


def c30(chk):
    chk.assumptions += ["named regions and shapes come from stand-ins for regionmask and geopandas", "no plot requested"]
    r0 = vf.model_check("DesignerMC", vf.cfg(constants=dict(Step=15000 if vf.THOROUGH else 30000), invariants=["Equivariant", "Monotone", "Exact"]))
    chk.model(r0, "DesignerMC")
    r = rng(30)
    cases = [c30_case(r, k) for k in range(600 if vf.THOROUGH else 180)]
    import matplotlib.pyplot  # noqa: F401  (before forking)
    lines, _ = rel.jobs(chk, design, cases)
    verdict, st, tr = vf.validate("DesignerTrace", lines, weight=lambda q: len(q["lat"]) * len(q["lon"]))
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines), **{k: sum(v["stats"][k] for v in verdict) for k in ("marked", "cells", "refused", "runs")})
    byid = {q["id"]: q for q in lines}
    for v in verdict:
        if not v["ok"]:
            b, q = v["bad"][0], byid[v["run"]]
            chk.violation(f"{v['run']}: {b['clause']} at time {b['time']}, cell ({b['row']},{b['col']}): specified {b['model'] / ONE:.3f}, observed {b['observed'] / ONE:.3f}; "
                          f"latitudes {q['lat']}, longitudes {q['lon']}, {q['design']}, error {q['error']}", dict(run=q, bad=v["bad"]))
    for q in lines[:4]:
        chk.sample(dict(id=q["id"], design=q["design"], lat=q["lat"], lon=q["lon"]))
