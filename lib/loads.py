"""Histories of forcing requests against the real loader, judged by LoadTrace.tla."""
import shutil, datetime as dt
import numpy as np
import vf, track
from track import lol, fx, DG


def loader():
    """the loader of the program, or None if it is not there in the known form"""
    try:
        from wam2layers.tracking.io import load_data
        from wam2layers.config import Config
        import inspect
        if list(inspect.signature(load_data).parameters)[:3] != ["t", "config", "subset"]:
            return None
        return load_data, Config
    except ImportError:
        return None


def history(c):
    """c['ops']: list of ('load', t, subset, 2 * domain + folder) or ('scribble',)"""
    d = vf.newdir("ld")
    load_data, Config = loader()
    try:
        track.prepare(c, d)
        track.write_inputs(dict(c, recs=c["other"]), d / "other")
        cfgs = []
        for b in c["domains"]:
            for f in ("pre", "other"):
                p = track.config(c, d, tracking_domain=b, preprocessed_data_folder=str(d / f))
                cfgs.append(Config.from_yaml(p))
        DT = c["dt"]
        inv = dict(xu=("fx_upper", DT / DG), xl=("fx_lower", DT / DG), yu=("fy_upper", DT / DG), yl=("fy_lower", DT / DG),
                   e=("evap", DT), p=("precip", DT), su=("s_upper", 1), sl=("s_lower", 1))
        rowof = {x: i + 1 for i, x in enumerate(c["lat"])}
        colof = {x: j + 1 for j, x in enumerate(c["lon"])}
        ev, held = [], None
        for op in c["ops"]:
            if op[0] == "load":
                _, t, subset, k = op
                cf = cfgs[k]
                when = cf.tracking_start_date + dt.timedelta(seconds=int(t) - c["t0"])
                try:
                    held = load_data(when, cf, subset)
                except Exception as ex:  # noqa: BLE001
                    return dict(errors=[f"loading {subset} at {when} failed: {type(ex).__name__}: {ex}"])
                names = ("su", "sl") if subset == "states" else ("xu", "xl", "yu", "yl", "e", "p")
                rows = [rowof.get(int(round(float(x) * 1000)), 0) for x in held["latitude"].values]
                cols = [colof.get(int(round(float(x) * 1000)), 0) for x in held["longitude"].values]
                if 0 in rows or 0 in cols or not rows or not cols:
                    return dict(errors=[f"cells at {held.latitude.values}, {held.longitude.values}"])
                ev.append(dict(op="load", t=int(t), folder=1 + k % 2, subset=subset, rows=rows, cols=cols,
                               values=[lol(fx(np.asarray(held[inv[q][0]].values, dtype="f8") * inv[q][1])) for q in names]))
            elif held is not None:
                for v in held.data_vars:
                    try:
                        held[v] *= np.float32(0.5)
                        held[v].values[...] = -7
                    except ValueError:     # read-only data protects itself
                        held[v] = held[v] * 0 - 7
                ev.append(dict(op="scribble"))
        line = dict(id=c["id"], tin=c["tin"], worlds=[[{k: lol(v) for k, v in q.items()} for q in recs] for recs in (c["recs"], c["other"])], events=ev)
        return dict(lines=[line])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(chk, lines, cases):
    verdict, st, tr = vf.validate("LoadTrace", lines, weight=lambda q: len(q["events"]))
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines), requests_judged=sum(len(q["events"]) for q in lines))
    for v in verdict:
        if not v["ok"]:
            b = v["bad"][0]
            ops = next(c["ops"] for c in cases if c["id"] == v["run"])
            chk.violation(f"history {v['run']}: request {b['event']} (t={b['t']}) of {b['field']} at ({b['row']},{b['col']}): "
                          f"in the files {b['model'] / track.ONE:.5f}, served {b['observed'] / track.ONE:.5f}", dict(bad=b, ops=ops))


def random_history(r, id, n=14, tins=(3600, 10800, 21600, 86400), ndays=2):
    tin = int(r.choice(tins))
    m, nn = 4, 5
    lon0 = int(r.choice([0, 178000, -180000]))
    g = track.grid(m, nn, lat0=40000, dlat=1000, lon0=lon0, dlon=1000)
    nrec = min(ndays * 86400 // tin + 1, 30)
    recs = track.forcing(r, m, nn, nrec, flux=1.0, smin=2, smax=20, surf=2)
    c = track.mk_case(id, g, recs, dt=tin, tin=tin, bbox=[-180, -80, 180, 80], model=False)
    lo = lambda j: g["lon"][j] / 1000
    c["domains"] = [None, [lo(1), 37.5, lo(3), 39.5], [lo(0) - 0.5, 36.5, lo(2) + 0.5 if lo(2) < 179.5 else lo(2), 40.5]]
    c["domains"] = [b if b is None or -180 <= b[0] <= 180 else None for b in c["domains"]]
    ops = []
    base = int(r.integers(0, nrec - 3)) * tin if nrec > 4 else 0
    if 86400 // tin < nrec - 2 and r.random() < 0.5:
        base = 86400 - tin    # around midnight
    for _ in range(n):
        if ops and r.random() < 0.35:
            ops.append(("scribble",))
        else:
            t = base + int(r.choice([0, tin // 6, tin // 4, tin // 2, tin, tin + tin // 3, 2 * tin]))
            t = max(0, min(t, (nrec - 1) * tin))
            ops.append(("load", t, str(r.choice(["states", "fluxes"])), int(r.choice([0, 0, 1, 2, 3, 4, 5]))))
    c["other"] = track.forcing(r, m, nn, nrec, flux=1.0, smin=2, smax=20, surf=2)
    c["ops"] = ops
    return c
