"""C34: the scripts that download ERA5 data."""
import ast, contextlib, datetime, os, shutil, sys, types
from pathlib import Path
import numpy as np
import vf, track, prep
from transport import rng, pick
from commands import generate

LONG = {"total_precipitation": "tp", "evaporation": "e", "surface_pressure": "sp", "total_column_water": "tcw", "2m_dewpoint_temperature": "d2m", "10m_u_component_of_wind": "u10",
        "10m_v_component_of_wind": "v10", "specific_humidity": "q", "u_component_of_wind": "u", "v_component_of_wind": "v"}
PARAM = {131: "u", 132: "v", 133: "q"}
WANTED = dict(pl=["tp", "e", "sp", "d2m", "u10", "v10", "tcw", "q", "u", "v"], ml=["tp", "e", "sp", "tcw", "u", "v", "q"])
LEVELS = dict(pl=[100, 200, 300, 400, 500, 550, 600, 650, 700, 750, 775, 800, 825, 850, 875, 900, 925, 950, 975, 1000],
              ml=[20, 40, 60, 80, 90, 95, 100, 105, 110, 115, 120, 123, 125, 128, 130, 131, 132, 133, 134, 135, 136, 137])
TEMPLATE = "{year}/{month:02}/ERA5_{year}-{month:02}-{day:02}{levtype}_{variable}.nc"
several = lambda x: list(x) if isinstance(x, (list, tuple)) else [x]
text = lambda v: [f"{float(x):g}" for x in (v or [])]


def name(kind, day, var):
    lev = "_" + kind if var in ("q", "u", "v") else ""
    y, m, d = day.split("-")
    return TEMPLATE.format(year=int(y), month=int(m), day=int(d), levtype=lev, variable=var)


def understood(kind, dataset, q):
    """(day, variable) of a request to the data store"""
    day = q.get("date") or f"{int(several(q['year'])[0]):04d}-{int(several(q['month'])[0]):02d}-{int(several(q['day'])[0]):02d}"
    day = str(several(day)[0])
    if dataset == "reanalysis-era5-complete":
        ok = dict({"class": "ea", "levtype": "ml", "stream": "oper", "type": "an"}).items() <= {k: str(v) for k, v in q.items()}.items()
        var = PARAM.get(int(str(several(q["param"])[0]))) if ok and len(several(q["param"])) == 1 else None
    else:
        ok = q.get("product_type") in ("reanalysis", ["reanalysis"]) and len(several(q.get("variable"))) == 1
        var = LONG.get(several(q["variable"])[0]) if ok else None
        if (dataset == "reanalysis-era5-pressure-levels") != (var in ("q", "u", "v")) or dataset not in ("reanalysis-era5-pressure-levels", "reanalysis-era5-single-levels"):
            var = None
    return (day, var) if var and "netcdf" in (q.get("format"), q.get("data_format")) else (day, "?")


def levels(q):
    l = q.get("pressure_level", q.get("levelist", []))
    l = l.split("/") if isinstance(l, str) else several(l)
    if len(l) == 5 and "to" in [str(x).lower() for x in l]:
        l = range(int(l[0]), int(l[2]) + 1, int(l[4]))
    return [int(x) for x in l]


def run_script(kind, d, settings, serve, stop=0):
    """Runs a download script with other settings; cdsapi is a stand-in."""
    tree = ast.parse((vf.REPO / "scripts" / f"download_era5_{kind}.py").read_text())
    seen = set()
    for st in tree.body:
        t = st.targets[0] if isinstance(st, ast.Assign) else getattr(st, "target", None)
        if isinstance(t, ast.Name) and t.id in settings and t.id not in seen:
            st.value = ast.copy_location(ast.parse(settings[t.id], mode="eval").body, st)
            seen.add(t.id)
    if set(settings) - seen:
        raise vf.Machinery(f"settings not found in the script: {set(settings) - seen}")
    ast.fix_missing_locations(tree)
    log = []

    class Result:
        def __init__(self, *a):
            self.a = a

        def download(self, target=None):
            serve(*self.a, target)
            return target

    class Client:
        def __init__(self, *a, **k):
            pass

        def retrieve(self, dataset, request, target=None):
            if stop and len(log) + 1 == stop:
                raise KeyboardInterrupt
            day, var = understood(kind, dataset, request)
            ok = serve.may(day, var)
            log.append(dict(item=f"{day} {var}", ok=ok is None, hours=sorted(int(str(x)[:2]) for x in several(request.get("time", []))), area=text(request.get("area")), grid=text(request.get("grid")),
                            levels=levels(request), plain=var not in ("q", "u", "v")))
            if ok is not None:
                raise ok
            r = Result(day, var, request)
            if target is not None:
                r.download(target)
            return r

    m = types.ModuleType("cdsapi")
    m.Client = Client
    sys.modules["cdsapi"] = m
    cwd = os.getcwd()
    os.chdir(d)
    error = ""
    try:
        exec(compile(tree, "script", "exec"), {"__name__": "__main__", "__file__": "script"})
    except KeyboardInterrupt:
        error = "stopped"
    except SystemExit as ex:
        error = f"exit {ex.code}"
    except Exception as ex:
        error = f"{type(ex).__name__}: {ex}"[:200]
    finally:
        os.chdir(cwd)
    return log, error


FAULTS = [Exception("500 internal error"), RuntimeError("no data"), ConnectionError("gone"), TimeoutError("late"), ValueError("request too large"), KeyError("reply"), OSError("disk quota")]


def fetch(c):
    d = vf.newdir("fetch")
    try:
        root = d / c["target"]
        for it in c["first"]:
            f = root / name(c["kind"], *it.split())
            f.parent.mkdir(parents=True, exist_ok=True)
            f.write_text("own")
        if c["data"]:
            prep.write_raw(c["data"], d / "server")
        items = [f"{a} {v}" for a in c["days"] for v in WANTED[c["kind"]]]
        paths = {name(c["kind"], *i.split()): i for i in items}
        runs = []
        for k, q in enumerate(c["runs"]):
            def serve(day, var, request, target):
                if c["data"]:
                    lev = "_" + c["kind"] if var in ("q", "u", "v") else ""
                    shutil.copy(d / "server" / "raw" / f"ERA5_{day}{lev}_{var}.nc", target)
                else:
                    Path(target).write_text(f"{day} {var}")
            serve.may = lambda day, var: FAULTS[q["fails"][f"{day} {var}"]] if f"{day} {var}" in q["fails"] else None if (f"{day} {var}" in items or not c["data"]) else ValueError("unknown")
            st = dict(target_dir=repr(str(root) if c["absolute"] else c["target"]), skip_exist=repr(q["skip"]), datelist=f"__import__('pandas').DatetimeIndex({c['days']!r})",
                      area=repr(c["area"]), grid=repr(c["grid"]))
            log, error = run_script(c["kind"], d, st, serve, q["stop"])
            files, other = [], []
            for f in sorted(x for x in d.rglob("*") if x.is_file() and "server" not in x.parts):
                rel = str(f.relative_to(root)) if root in f.parents else None
                if rel not in paths:
                    other.append(str(f.relative_to(d)))
                    continue
                it = paths[rel]
                if c["data"]:
                    same = f.read_bytes() == (d / "server" / "raw" / (f"ERA5_{it.split()[0]}" + (f"_{c['kind']}" if it.split()[1] in ("q", "u", "v") else "") + f"_{it.split()[1]}.nc")).read_bytes()
                    files.append([it, "got" if same else "else"])
                else:
                    s = f.read_text()
                    files.append([it, "own" if s == "own" else "got" if s == it else s])
            runs.append(dict(skip=q["skip"], stopped=error == "stopped", error=error, events=log, files=files, other=other))
        out = dict(line=dict(id=c["id"], items=items, first=c["first"], hours=list(range(24)), area=text(c["area"]), grid=text(c["grid"]), levels=LEVELS[c["kind"]], runs=runs), pre=None)
        if c["data"]:
            cfg = prep.config(c["data"], d, str(root) + "/" + TEMPLATE)
            code, err = prep.invoke(c["data"], cfg)
            files, other = prep.read_dir(c["data"], d / "pre")
            out["pre"] = dict(code=code, error=err, files=files, other=other)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c34(chk):
    chk.assumptions += ["cdsapi is a stand-in; a request stores the whole file or none"]
    consts = dict(ITEMS="{1,2,3}", RUNS=3 if vf.THOROUGH else 2)
    chk.model(vf.model_check("FetchMC", vf.cfg(constants=consts, invariants=["OwnIsKept", "OnlyFailedAreMissing", "AskedIsNew", "AllIsFetched"])), "FetchMC")
    situations, g = generate("FetchGen", SLOTS=3)
    chk.add(situations_generated=len(situations))
    r = rng(34)
    order = r.permutation(len(situations))
    cases = []
    for k in range(len(situations) if vf.THOROUGH else 160):
        s = situations[int(order[k])]
        kind = ("pl", "ml")[k % 2]
        d0 = datetime.date(int(pick(r, 1959, 2003, 2020, 2024)), int(r.integers(1, 13)), int(pick(r, 1, 9, 27, 28)))
        days = [str(d0 + datetime.timedelta(int(x))) for x in sorted(r.choice(7, int(r.integers(1, 5)), replace=False))]
        items = [f"{a} {v}" for a in days for v in WANTED[kind]]
        where = [items[int(x)] for x in r.choice(len(items), 3, replace=False)]
        of = lambda *what: [w for w, x in zip(where, s["slots"]) if x in what]
        fault = lambda q: {w: int(r.integers(len(FAULTS))) for w in q}
        runs = [dict(skip=s["skip"], stop=int(r.integers(1, len(items) - 2)) if s["stop"] else 0, fails=fault(of("fails", "fails twice")))]
        if s["again"]:
            runs.append(dict(skip=bool(s["skip"] or r.random() < 0.5), stop=0, fails=fault(of("fails twice"))))
            if r.random() < 0.3:
                runs.append(dict(skip=True, stop=0, fails={}))
        cases.append(dict(id=f"{kind}{k}", kind=kind, days=days, first=of("there"), runs=runs, target=pick(r, ".", "data", "a/b c/d"), absolute=bool(r.integers(2)), data=None,
                          area=pick(r, [50, -10.5, 30, 20], [10, 0, -5, 359]) if s["area"] else None, grid=pick(r, [0.25, 0.25], [1.0, 1.0], [0.5, 1.5])))
    # fetched in parts, then preprocessed
    for k in range(12 if vf.THOROUGH else 4):
        kind = ("pl", "ml")[k % 2]
        base = pick(r, "2019-12-31", "2020-02-28", "2021-06-30", "2021-09-09")
        c = prep.mk(f"fetched{k}", r, "era5", kind, [41000, 40000], [0, 1000], LEVELS[kind], start=0, end=82800 * 2 + 3600, freq=3600, base=base, check=["column", "files"], tcw=True, names=pick(r, "old", "new"))
        c["raw"] = c["raw"][:48]
        c["cfglevels"] = pick(r, "All", LEVELS[kind]) if kind == "pl" else LEVELS[kind]
        c["extra"] = dict(parallel_preprocess=False)
        d0 = datetime.date(*map(int, base.split("-")))
        days = [str(d0 + datetime.timedelta(x)) for x in (0, 1)]
        items = [f"{a} {v}" for a in days for v in WANTED[kind]]
        bad = {str(x): int(r.integers(len(FAULTS))) for x in r.choice(items, 3, replace=False)}
        cases.append(dict(id=f"fetched{k}", kind=kind, days=days, first=[], runs=[dict(skip=True, stop=int(r.integers(2, len(items))) if k % 3 == 2 else 0, fails=bad), dict(skip=True, stop=0, fails={})],
                          target=pick(r, ".", "data"), absolute=bool(r.integers(2)), data=c, area=[41, 0, 40, 1], grid=[1.0, 1.0]))
    res = vf.fork_map(fetch, cases, timeout=200)
    res = track.rerun_odd(fetch, cases, res, 200)
    lines, pc, pr = [], [], []
    for c, q in zip(cases, res):
        if q[0] != "ok":
            raise vf.Machinery(f"{c['id']}: {q}")
        lines.append(q[1]["line"])
        if c["data"]:
            pc.append(c["data"])
            pr.append(("ok", q[1]["pre"]))
    verdict, st, tr = vf.validate("FetchTrace", lines)
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines), requests=sum(len(x["events"]) for q in lines for x in q["runs"]))
    chk.sample([q["id"] for q in lines][:4])
    for v in verdict:
        if not v["ok"]:
            b = v["bad"][0]
            c = next(c for c in cases if c["id"] == v["run"])
            chk.violation(f"{v['run']}: {b['clause']} ({b['item']}, run {b['run']}): specified {str(b['model'])[:160]}, observed {str(b['observed'])[:160]}",
                          dict(bad=v["bad"][:5], case={k: x for k, x in c.items() if k != "data"}))
    if not chk.violations:
        prep.judge(chk, pc, pr)
