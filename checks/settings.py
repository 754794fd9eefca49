"""C19, C20: configurations against spec/Settings.tla."""
import json, os, shutil
from pathlib import Path
import yaml
import vf, track

DATES = ("preprocess_start_date", "preprocess_end_date", "tracking_start_date", "tracking_end_date", "tagging_start_date", "tagging_end_date")
CALENDARS = ("standard", "gregorian", "proleptic_gregorian", "noleap", "365_day", "360_day", "julian", "all_leap", "366_day")
FORMS = dict(THM="{:04d}-{:02d}-{:02d}T{:02d}:{:02d}", THMS="{:04d}-{:02d}-{:02d}T{:02d}:{:02d}:{:02d}", day="{:04d}-{:02d}-{:02d}",
             space="{:04d}-{:02d}-{:02d} {:02d}:{:02d}", zone="{:04d}-{:02d}-{:02d}T{:02d}:{:02d}+00:00", slash="{:04d}/{:02d}/{:02d}T{:02d}:{:02d}")


def value(v, d):
    """A tagged value as it stands in the file (None for absent)."""
    tag, a = v[0], v[1:]
    if tag == "at":
        return "~/sub" if a[0] == "home" else "rel/folder" if a[0] == "relative" else str(d / a[0])
    return {"null": lambda: None, "bool": lambda: a[0], "int": lambda: a[0], "str": lambda: a[0], "num": lambda: float(a[0]), "ints": lambda: list(a), "strs": lambda: list(a),
            "box": lambda: [x / 1000 for x in a], "date": lambda: FORMS[a[6]].format(*a[:6])}[tag]()


def tagged(x, d, cwd, name=""):
    """A loaded value as a tagged one."""
    if x is None:
        return ["null"]
    if isinstance(x, bool):
        return ["bool", x]
    if isinstance(x, int):
        return ["int", x]
    if isinstance(x, float):
        return ["num", repr(x)]
    if isinstance(x, Path):
        for place, p in (("home", d / "home" / "sub"), ("relative", cwd / "rel" / "folder")):
            if x == p:
                return ["at", place]
        return ["at", str(x.relative_to(d))] if x.is_relative_to(d) else ["at", str(x)]
    if hasattr(x, "calendar"):
        return ["date", x.year, x.month, x.day, x.hour, x.minute, x.second]
    if isinstance(x, tuple) and hasattr(x, "west"):
        return ["box"] + [int(round(q * 1000)) for q in (x.west, x.south, x.east, x.north)]
    if isinstance(x, list):
        return ["ints"] + x
    return ["str", str(x)]


def dump(cfg, d, cwd):
    fields = type(cfg).model_fields if hasattr(type(cfg), "model_fields") else vars(cfg)
    out = [[n, tagged(getattr(cfg, n), d, cwd)] for n in sorted(fields)]
    # the calendar is a property of the dates, too
    for n in DATES:
        have, said = getattr(cfg, n).calendar, cfg.calendar
        same = {"gregorian": "standard", "365_day": "noleap", "366_day": "all_leap"}
        if same.get(have, have) != same.get(said, said):
            out = [[m, ["str", f"date in the {have} calendar"]] if m == n else [m, v] for m, v in out]
    return out


def world():
    d = vf.newdir("cfg")
    for n in ("there", "home", "cwd"):
        (d / n).mkdir()
    (d / "region.nc").write_text("region")
    return d


def fresh(d):
    for n in ("new", "new2", "deep", "cwd/rel", "home/sub"):
        shutil.rmtree(d / n, ignore_errors=True)


def load_batch(job):
    """Load a batch of configurations in one process."""
    from wam2layers.config import Config
    d = world()
    cwd = d / "cwd"
    os.chdir(cwd)
    os.environ["HOME"] = str(d / "home")
    out = []
    for id, over, base in job:
        fresh(d)
        settings = dict(base) | {k: v for k, v in over}
        given = {k: value(v, d) for k, v in settings.items() if v != ["absent"]}
        line = dict(id=id, how="load", over=over, accepted=False, error="", loaded=[], fromstring=[], fromfile=[], folders=[])
        p = d / "c.yaml"
        p.write_text(yaml.safe_dump(given, sort_keys=bool(id % 2)))
        try:
            cfg = Config.from_yaml(p if id % 3 else str(p))
        except Exception as ex:  # noqa: BLE001
            line["error"] = f"{type(ex).__name__}: {ex}"[:300]
            out.append(line)
            continue
        line["accepted"] = True
        line["loaded"] = dump(cfg, d, cwd)
        line["folders"] = [n for n, q in (("there", "there"), ("new", "new"), ("new2", "new2"), ("deep/er", "deep/er"), ("deep/est/out", "deep/est/out"), ("home", "home/sub"), ("relative", "cwd/rel/folder")) if (d / q).is_dir()]
        try:
            text = cfg.to_string()
            line["fromstring"] = dump(Config(**yaml.safe_load(text)), d, cwd)
            cfg.to_file(d / "e.yaml")
            line["fromfile"] = dump(Config.from_yaml(d / "e.yaml"), d, cwd)
        except Exception as ex:  # noqa: BLE001
            line["error"] = f"exporting: {type(ex).__name__}: {ex}"[:300]
        out.append(line)
    shutil.rmtree(d, ignore_errors=True)
    return out


def assign_batch(job):
    """Assign settings to a loaded configuration."""
    from wam2layers.config import Config
    d = world()
    cwd = d / "cwd"
    os.chdir(cwd)
    os.environ["HOME"] = str(d / "home")
    out = []
    for id, over, base in job:
        fresh(d)
        p = d / "c.yaml"
        p.write_text(yaml.safe_dump({k: value(v, d) for k, v in base if v != ["absent"]}))
        line = dict(id=id, how="assign", over=over, accepted=False, error="", loaded=[], fromstring=[], fromfile=[], folders=[])
        try:
            cfg = Config.from_yaml(p)
        except Exception as ex:  # noqa: BLE001
            out.append(dict(line, how="load", over=[], error=repr(ex)[:300]))
            continue
        try:
            for k, v in over:
                setattr(cfg, k, value(v, d))
            line["accepted"] = True
            line["loaded"] = dump(cfg, d, cwd)
        except Exception as ex:  # noqa: BLE001
            line["error"] = f"{type(ex).__name__}: {ex}"[:300]
        out.append(line)
    shutil.rmtree(d, ignore_errors=True)
    return out


def generate(step, offset, rand):
    d = vf.newdir()
    r = vf.tlc("SettingsGen", cfg=vf.cfg(constants=dict(STEP=step, OFFSET=offset, RANDOM=rand)), env=dict(VF_OUT=d / "o.json"), args=("-seed", str(vf.SEED)), heap="4g")
    if not r.ok:
        raise vf.Machinery("generating configurations failed:\n" + r.out[-3000:])
    o = json.loads((d / "o.json").read_text())
    return o["base"], o["cases"], r


def batches(fn, overs, b, first=0):
    jobs = [[(first + i, o, b) for i, o in list(enumerate(overs))[k::16]] for k in range(16)]
    lines = []
    for q in vf.fork_map(fn, [j for j in jobs if j], timeout=200):
        if q[0] != "ok":
            raise vf.Machinery(f"loading configurations failed: {q}")
        lines += q[1]
    return lines


def judge(chk, lines, what):
    verdict, st, tr = vf.validate("SettingsTrace", lines, heap="2g")
    ok = [v for v in verdict if v["run"] == "all"]
    if sum(v["judged"] for v in ok) != len(lines):
        raise vf.Machinery("not all configurations were judged")
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines), **{what + "_judged": len(lines), what + "_accepted": sum(v["accepted"] for v in ok)})
    by = {q["id"]: q for q in lines}
    for v in verdict:
        if v["run"] != "all":
            q, b = by[v["run"]], v["bad"][0]
            yield q, b


def c19(chk):
    chk.assumptions += ["values whose acceptance is a matter of type coercion (numbers given as text, 0/1 for booleans) are not explored"]
    step = 2 if vf.THOROUGH else 19
    b, overs, r = generate(step, vf.SEED % step, 2000 if vf.THOROUGH else 300)
    chk.model(r, "SettingsGen")
    lines = batches(load_batch, overs, b)
    singles = [o for o in overs if len(o) == 1 and o[0][1] != ["absent"] and o[0][0] not in DATES + ("calendar", "log_level")]
    lines += batches(assign_batch, singles, b, first=10 ** 6)
    for q in lines:
        chk.sample(dict(over=q["over"], accepted=q["accepted"]))
    for q, b in judge(chk, lines, "configurations"):
        if b["clause"].startswith("exported"):
            continue                                        # C20
        chk.violation(f"configuration {q['over']} ({q['how']}): {b['clause']}: specified {b['model']}, observed {b['observed']} {q['error']}", q)


def output_case(c):
    """Run the program; what do its outputs say they were made with."""
    import glob, netCDF4
    from wam2layers.config import Config
    d = vf.newdir("run")
    try:
        cfg = track.setup(c, d)
        code, ex = track.invoke("track", cfg)
        want = dump(Config.from_yaml(cfg), d, Path.cwd())
        res = []
        for f in sorted(glob.glob(str(d / "out" / "*track_*.nc"))):
            with netCDF4.Dataset(f) as nc:
                text = getattr(nc, "WAM2Layers_config", "")
                title = str(getattr(nc, "title", ""))
            try:
                got, err = dump(Config(**yaml.safe_load(text)), d, Path.cwd()), ""
            except Exception as e:  # noqa: BLE001
                got, err = [], repr(e)[:300]
            res.append(dict(file=os.path.basename(f), given=want, attribute=got, title=title, error=err))
        return dict(code=code, error=ex, res=res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c20(chk):
    import transport, relations
    chk.assumptions += ["dates have whole seconds"]
    step = 5 if vf.THOROUGH else 0
    b, overs, r = generate(step, vf.SEED % max(step, 1), 6000 if vf.THOROUGH else 1500)
    chk.model(r, "SettingsGen")
    lines = batches(load_batch, overs, b)
    for q in lines[-4:]:
        chk.sample(dict(over=q["over"], accepted=q["accepted"]))
    # runs of the program: the attributes of its outputs
    r = transport.rng(20)
    cases = []
    for k in range(36 if vf.THOROUGH else 14):
        g = transport.some_grid(r, m=4, n=4) if k % 3 else transport.ring_grid(r, n=4)
        c = transport.general(r, f"attr{k}", transport.both_dirs(k), [], model=False, g=g, per=k % 3 == 0, nrec=int(r.integers(3, 6)), dts=(1200, 1800), window=k % 2 == 0)
        c["calendar"] = transport.pick(r, *CALENDARS)
        c["extra"] = dict(c["extra"], **{n: v for n, v in dict(
            level_type=transport.pick(r, "model_levels", "pressure_levels"), levels=transport.pick(r, [1, 2], "all", "All", list(range(1, 138))),
            parallel_preprocess=bool(k % 2), parallel_processes=transport.pick(r, 3, None), level_layer_boundary=int(r.integers(90, 120)),
            pressure_boundary_factor=float(r.uniform(0, 1)), pressure_boundary_offset=float(r.uniform(-1e4, 1e4)),
            preprocess_start_date="2001-02-03T04:05:06", preprocess_end_date="2001-02-03T04:05:07",
            filename_template="a: b, {variable} 'x' \"y\" # \u00e9.nc").items() if r.random() < 0.6})
        if ("preprocess_start_date" in c["extra"]) != ("preprocess_end_date" in c["extra"]):
            c["extra"].pop("preprocess_start_date", None), c["extra"].pop("preprocess_end_date", None)
        cases.append(c)
    n = 10 ** 6
    for c, q in zip(cases, track.run_all(cases, output_case)):
        if q[0] != "ok" or q[1]["code"] != 0 or not q[1]["res"]:
            chk.violation(f"run {c['id']} failed: {q}", track.brief(c))
            continue
        for o in q[1]["res"]:
            n += 1
            lines.append(dict(id=n, how="output", accepted=True, over=[], direction=c["dir"], error=o["error"], given=o["given"], attribute=o["attribute"], title=o["title"], file=c["id"] + "/" + o["file"]))
            chk.add(outputs_judged=1)
    for q, x in judge(chk, lines, "configurations"):
        if q["how"] == "load" and not x["clause"].startswith("exported"):
            continue                                        # C19
        chk.violation(f"{q['over'] or q.get('file')}: {x['clause']}: specified {x['model']}, observed {x['observed']} {q['error']}", q)
