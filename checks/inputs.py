"""The check of forcing data."""
import json, re, shutil
import numpy as np
import vf, rel, prep
from transport import rng, pick
from preprocessing import shifted_grid

NAMES = ("evap", "precip", "s_upper", "s_lower", "fx_upper", "fy_upper", "fx_lower", "fy_lower")
DIMS = ("time", "latitude", "longitude")
NOVALUE = -2000000000
KINDS = (("order", r"monotonic|increasing|decreasing"), ("spacing", r"uniform|spacing"), ("unit", r"\bunits?\b"), ("range", r"range"), ("sign", r"positive|negative"),
         ("dims", r"dimensions"), ("lacks", r"coordinate"))


def dataset(c):
    import xarray as xr
    r = np.random.default_rng(c["seed"])
    b = np.datetime64("2021-07-01T00:00:00", "ns")
    val = {}
    for d in DIMS:
        q = np.array(c["coords"][d], dtype="i8")
        val[d] = b + q.astype("timedelta64[s]") if d == "time" else (q / 1000).astype(c["dtype"])
    size = {d: len(val[d]) or 3 for d in DIMS} | dict(level=2, place=2)
    out = xr.Dataset(coords={d: (d, val[d]) for d in DIMS if len(val[d])})
    for v in NAMES:
        x = c["vars"][v]
        sh = [size[d] for d in x["dims"]]
        if x["min"] == NOVALUE:
            a = np.full(sh, np.nan)
        else:
            a = r.uniform(x["min"], x["max"], sh) if x["max"] > x["min"] else np.full(sh, float(x["min"]))
            f = a.reshape(-1)
            k = r.permutation(f.size)
            if f.size > 3 and r.random() < 0.3:
                f[k[2]] = np.nan
            f[k[0]], f[k[-1]] = x["min"], x["max"]
            if f.size == 1:
                x["min"] = x["max"]
            a = f.reshape(sh) / 1e6
        out[v] = (x["dims"], a)
        if x["units"]:
            out[v].attrs["units"] = x["units"]
    return out


def reports(ds):
    """what check_input says about ds: problems as (kind, variable, coordinate)"""
    import warnings
    from wam2layers.analysis.checks import check_input
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        try:
            check_input(ds)
            ok, err = True, ""
        except Exception as ex:  # noqa: BLE001
            ok, err = False, f"{type(ex).__name__}: {ex}"
    said = []
    for w in got:
        t = str(w.message)
        if not issubclass(w.category, UserWarning):
            continue
        kind = next((k for k, e in KINDS if re.search(e, t)), "other")
        words = re.findall(r"\w+", t)
        v = next((x for x in words if x in NAMES), "") if kind not in ("order", "spacing") else ""
        d = next((x for x in words if x in DIMS), "") if kind in ("order", "spacing", "lacks") else ""
        said.append(dict(kind=kind, var=v, coord=d))
    said = [json.loads(x) for x in sorted({json.dumps(s) for s in said})]
    return ok, err, said


def look(group):
    lines = []
    for c in group["cases"]:
        ds = dataset(c)
        ok, err, said = reports(ds)
        lines.append(dict(id=c["id"], vars=c["vars"], coords=c["coords"], dtype=c["dtype"], ok=ok, error=err, said=said))
    return dict(lines=lines)


def combine(r, good, a, b):
    """the damage of both"""
    c = json.loads(json.dumps(a))
    for v in NAMES:
        for k in ("units", "dims"):
            if b["vars"][v][k] != good["vars"][v][k]:
                c["vars"][v][k] = b["vars"][v][k]
        if (b["vars"][v]["min"], b["vars"][v]["max"]) != (good["vars"][v]["min"], good["vars"][v]["max"]):
            c["vars"][v].update(min=b["vars"][v]["min"], max=b["vars"][v]["max"])
    for d in DIMS:
        if b["coords"][d] != good["coords"][d]:
            c["coords"][d] = b["coords"][d]
    return c


def other_grid(r, c):
    """the same with finer or longer coordinates, where those are sound"""
    c = json.loads(json.dumps(c))
    if c["coords"]["latitude"] == [3000, 2000, 1000]:
        s, n = int(pick(r, 100, 250, 700, 1000)), int(r.integers(2, 12))
        y = int(r.integers(-80, 81)) * 1000 // 2
        c["coords"]["latitude"] = [y - i * s for i in range(n)]
    if c["coords"]["longitude"] == [0, 1000, 2000]:
        s, n, x = int(pick(r, 100, 250, 700, 1000)), int(r.integers(2, 12)), int(r.integers(-180, 300)) * 1000
        c["coords"]["longitude"] = [x + i * s for i in range(n)]
    if c["coords"]["time"] == [0, 1000, 2000]:
        s, n = int(pick(r, 1800, 3600, 10800, 86400)), int(r.integers(1, 6))
        c["coords"]["time"] = [i * s for i in range(n)]
    return c


def written(c):
    """files written by preprocessing"""
    import glob, xarray as xr
    d = vf.newdir("chk")
    try:
        code, err = prep.invoke(c, prep.config(c, d, prep.write_raw(c, d)))
        if code:
            return dict(errors=[f"preprocessing failed: {err}"])
        lines = []
        for k, f in enumerate(sorted(glob.glob(str(d / "pre" / "*_fluxes_storages.nc")))):
            with xr.open_dataset(f) as ds:
                ok, err, said = reports(ds)
                vs = {}
                for v in NAMES:
                    a = np.asarray(ds[v].values, dtype="f8") * 1e6
                    a = np.clip(a[~np.isnan(a)], -1.9e9, 1.9e9)
                    vs[v] = dict(units=ds[v].attrs.get("units", ""), dims=list(ds[v].dims), min=int(np.floor(a.min())), max=int(np.ceil(a.max())))
                t = ds["time"].values
                co = dict(time=[int((x - t[0]) / np.timedelta64(1, "s")) if isinstance(x, np.datetime64) else int((x - t[0]).total_seconds()) for x in t])
                for q in DIMS[1:]:
                    co[q] = [int(round(float(x) * 1000)) for x in ds[q].values]
                lines.append(dict(id=f"{c['id']}-{k}", vars=vs, coords=co, dtype="", ok=ok, error=err, said=said))
        return dict(lines=lines)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def from_files(chk, r):
    cases = []
    for k in range(40 if vf.THOROUGH else 12):
        lat, lon, dlat, dlon = shifted_grid(r, (4, 5, 2)[k % 3])
        if k % 2 == 0:
            dlat = dlon = 100
            y = int(r.integers(-80, 80)) * 1000
            lat, lon = [y - i * dlat for i in range(4)], [lon[0] + j * dlon for j in range(5)]
        src = ("era5", "cmip", "era5", "arco")[k % 4]
        cal = pick(r, "standard", "noleap", "360_day") if src != "arco" else "proleptic_gregorian"
        freq = 21600 if src == "cmip" else int(pick(r, 3600, 10800))
        start = freq * int(r.integers(1, 6))
        kind = "ml" if src == "era5" and k % 8 else "pl"
        cases.append(prep.mk(f"{src}{k}", r, src, kind, lat, lon, [100, 137] if kind == "ml" else [500, 850], start=start, end=start + freq * int(r.integers(0, 30)), freq=freq,
                             calendar=cal, dlat=dlat, dlon=dlon, check=[]))
    lines, _ = rel.jobs(chk, written, cases)
    return lines


def c39(chk):
    chk.assumptions += ["warnings are told apart by their category and the words units, range, positive, dimensions, coordinate, uniform, monotonic, and by the names in them"]
    chk.model(vf.model_check("InputCheckMC", vf.cfg(constants=dict(MaxDamage=3 if vf.THOROUGH else 2), invariants=["SoundIsSilent", "Charged", "NoMask", "Mends"])), "InputCheckMC")
    d = vf.newdir()
    res = vf.tlc("InputGen", cfg=vf.cfg(spec="GenSpec", constants=dict(MaxDamage=1)), env=dict(VF_OUT=d / "o.json"))
    if not res.ok:
        raise vf.Machinery(res.out[-2000:])
    one = sorted(json.loads((d / "o.json").read_text()), key=lambda x: json.dumps(x, sort_keys=True))
    r = rng(39)
    pool = ("kg m-2 s-1", "kg/m2/s", "kg m-2", "kg/m2", "kg m-1 s-1", "kg m^-1 s^-1", "kg m**-1 s**-1")
    ok = lambda x: all(x["coords"][k] == v for k, v in dict(latitude=[3000, 2000, 1000], longitude=[0, 1000, 2000], time=[0, 1000, 2000]).items()) and all(
        len(y["dims"]) == 3 and "place" not in y["dims"] and y["max"] == 500 and y["units"] in pool for y in x["vars"].values())
    # the undamaged dataset differs from no more than one other variable
    good = min((x for x in one if ok(x)), key=lambda x: sum(json.dumps(x["vars"][v]) != json.dumps(y["vars"][v]) for y in one for v in NAMES))
    raw = [(x, False) for x in one] + [(x, True) for x in one]
    for _ in range(6000 if vf.THOROUGH else 1200):
        x = one[int(r.integers(len(one)))]
        for _ in range(int(r.integers(1, 5))):
            x = combine(r, good, x, one[int(r.integers(len(one)))])
        raw.append((x, r.random() < 0.5))
    cases = []
    for k, (x, finer) in enumerate(raw):
        x = other_grid(r, x) if finer else json.loads(json.dumps(x))
        cases.append(dict(x, id=f"data{k}", seed=int(r.integers(1 << 30)), dtype=pick(r, "f4", "f8", "f8")))
    n = 2 * vf.NPROC
    lines, _ = rel.jobs(chk, look, [dict(id=f"group{k}", cases=cases[k::n]) for k in range(n)])
    lines += from_files(chk, r)
    verdict, st, tr = vf.validate("InputTrace", lines)
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines), problems=sum(v["problems"] for v in verdict), sound=sum(v["problems"] == 0 for v in verdict))
    byid = {q["id"]: q for q in lines}
    for v in verdict:
        if not v["ok"]:
            q = byid[v["run"]]
            chk.violation(f"{v['run']}: {v['bad'][0]['clause']} {v['bad'][0]['problem']}; reported {q['said']}, {q['error']}; variables {q['vars']}, coordinates {q['coords']}", q)
    for q in lines[:4]:
        chk.sample(q)


# ------------------------------------------------------------------ C40
CALS = ("standard", "gregorian", "proleptic_gregorian", "julian", "noleap", "365_day", "all_leap", "366_day", "360_day")


def calendars(c):
    import glob, warnings
    d = vf.newdir("cal")
    try:
        t = prep.write_raw(c, d)
        cfg = prep.config(c, d, t, calendar=c["configured"])
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter("always")
            code, err = prep.invoke(c, cfg)
        told = [str(w.message) for w in got if issubclass(w.category, UserWarning) and "alendar" in str(w.message)]
        # both calendars, under any of their names
        alias = (("gregorian", "standard"), ("365_day", "noleap"), ("366_day", "all_leap"))
        names = lambda x: {x} | {n for a in alias if x in a for n in a}
        named = all(any(n in t for n in names(c["calendar"]) | ({"standard"} if c["calendar"] == "proleptic_gregorian" else set())) and any(n in t for n in names(c["configured"])) for t in told)
        files = len(glob.glob(str(d / "pre" / "*_fluxes_storages.nc")))
        return dict(lines=[dict(id=c["id"], source=c["source"], data=c["calendar"], config=c["configured"], ok=code == 0, error=str(err)[:300], warnings=len(told), named=named, files=files, told=told[:2])])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c40(chk):
    chk.assumptions += ["a report about calendars is a warning with the word calendar", "standard and proleptic Gregorian: the same since 1582, not judged against each other"]
    inv = ["SameIsSame", "AlikeSince1582", "Exclusive", "OtherIsOther"]
    # leap years that tell all calendars apart lie before 1582 and after
    chk.model(vf.model_check("CalendarsMC", vf.cfg(constants=dict(From=1496, To=1504), invariants=[i for i in inv if i != "OtherIsOther"])), "CalendarsMC (1496-1504)")
    chk.model(vf.model_check("CalendarsMC", vf.cfg(constants=dict(From=1400 if vf.THOROUGH else 1499, To=2101 if vf.THOROUGH else 1705), invariants=inv)), "CalendarsMC")
    r = rng(40)
    cases = []
    srcs = [("cmip", a, b) for a in CALS for b in CALS] * (3 if vf.THOROUGH else 1)
    some = [("era5", a, b) for a in CALS for b in CALS]
    srcs += some if vf.THOROUGH else [some[int(i)] for i in r.permutation(len(some))[:24]]
    srcs += [("arco", "proleptic_gregorian", b) for b in CALS]
    srcs += [("cmip", a, a) for a in CALS]
    for k, (src, a, b) in enumerate(srcs):
        lat, lon, dlat, dlon = shifted_grid(r, k)
        base = pick(r, "2021-07-01", "2021-02-20", "1999-12-05", "2101-03-05") if src == "arco" or r.random() < 0.7 else pick(r, "1700-03-05", "2300-06-01")
        freq = 21600 if src == "cmip" else 10800
        start = freq * int(r.integers(1, 4))
        kind = "ml" if src == "era5" and k % 2 else "pl"
        c = prep.mk(f"{src}{k}-{a}-{b}", r, src, kind, lat, lon, [100, 137] if kind == "ml" else [500, 850], start=start, end=start + freq * int(r.integers(0, 5)), freq=freq, calendar=a, base=base,
                    layout=pick(r, "day", "one") if a == b else "one", dlat=dlat, dlon=dlon, check=[])
        c["configured"], c["parts"] = b, int(pick(r, 1, 2))
        cases.append(c)
    lines, _ = rel.jobs(chk, calendars, cases)
    verdict, st, tr = vf.validate("CalendarTrace", lines)
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines), mismatches=sum(v["mismatch"] for v in verdict))
    byid = {q["id"]: q for q in lines}
    for v in verdict:
        if not v["ok"]:
            chk.violation(f"{v['run']}: {v['bad']}; {byid[v['run']]}", byid[v["run"]])
    for q in lines[:4]:
        chk.sample(q)
