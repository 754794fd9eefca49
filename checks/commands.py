"""C21-C23: the command line, downloads and retries."""
import glob, json, os, shutil, time
from pathlib import Path
import numpy as np
import yaml
import vf, track, prep
from transport import rng, pick

SOURCES = ("era5", "cmip", "arco-era5")
SIGNS = {"era5": (1, 1), "cmip": (-1, 1), "arco-era5": (1, -1)}


def generate(module, **const):
    d = vf.newdir()
    r = vf.tlc(module, cfg=vf.cfg(constants=const), env=dict(VF_OUT=d / "o.json"), args=("-seed", str(vf.SEED)), heap="4g")
    if not r.ok:
        raise vf.Machinery(f"{module} failed:\n" + r.out[-3000:])
    return json.loads((d / "o.json").read_text()), r


def sources():
    r = rng(2100)
    out = {}
    for s, (a, b) in SIGNS.items():
        c = prep.mk("cli", r, s.split("-")[0], "pl", [42000, 41000, 40000], [0, 1000, 2000, 3000], [500, 850], start=21600, end=64800, freq=21600, layout="one", names="old", calendar="proleptic_gregorian")
        for R in c["raw"]:
            R["u"][:], R["us"][:] = a * track.ONE // 2, a * track.ONE // 2
            R["v"][:], R["vs"][:] = b * track.ONE // 2, b * track.ONE // 2
            R["q"][:] = track.ONE // 2
        out[s] = c
    return out


def settings(c, d, **over):
    p = prep.config(c, d, str(d / "raw" / "{variable}.nc"), "tmp.yaml", input_frequency="6h", timestep=3600, output_frequency="6h", tagging_region=[-0.5, 40.5, 2.5, 41.5], **over)
    s = yaml.safe_load(p.read_text())
    p.unlink()
    return s


def label(d, c):
    files, other = prep.read_dir(c, d / "pre")
    if not files:
        return "none"
    if len(files) != 1 or len(files[0]["times"]) != 3:
        return "part"
    sg = tuple(int(np.sign(sum(np.sum(r[a]) + np.sum(r[b]) for r in files[0]["rows"]))) for a, b in (("xu", "xl"), ("yu", "yl")))
    return next((s for s, x in SIGNS.items() if x == sg), "mixed")


def make_world(d, w):
    """raw data, preprocessed data, the folders"""
    for n in ("raw", "pre", "out", "cfg"):
        (d / n).mkdir(parents=True, exist_ok=True)
    cs = sources()
    for s in ("era5", "cmip"):
        if s in w["raw"]:
            prep.write_raw(cs[s], d)
    for f in glob.glob(str(d / "raw" / "*")):
        b = os.path.basename(f)
        os.rename(f, d / "raw" / ((b.split("_")[-1][:-3] if b.startswith("ERA5") else b.split("_")[0]) + ".nc"))
    if w["pre"] != "none":
        shutil.copy(PRE["era5"], d / "pre" / "2021-07-01_fluxes_storages.nc")
    return cs


PRE = {}


def in_process(fn, timeout=90):
    q = vf.fork_map(lambda _: fn(), [0], timeout=timeout)[0]
    if q[0] == "ok":
        return q[1]
    raise vf.Machinery(f"command ended abnormally: {q}")


def holds(f, v):
    import netCDF4
    with netCDF4.Dataset(f) as nc:
        return v in nc.variables


def run_command(d, cs, w, x, t):
    """One command in a process of its own."""
    base = cs["era5"]
    cfgs = {"own": d / "cfg", "output": d / "out", "pre": d / "pre", "relative": d / "cfg", "spaced name": d / "cfg"}
    name = f"my {x['do']} settings.v1.yaml" if x["place"] == "spaced name" else f"{x['do']}-{x['arg']}.yaml" if x["do"] in ("track", "preprocess") else "any.yaml"
    p = cfgs[x["place"]] / name
    s = settings(base, d, tracking_direction=x["arg"] if x["do"] == "track" else ("forward", "backward")[t % 2])
    if x["cfg"] == "order":
        a, b = ("tracking", "preprocess")[x["do"] == "preprocess"], "2021-07-01T19:00"
        s[a + "_start_date"] = b
    elif x["cfg"] == "lost":
        s.pop(("output_frequency", "tracking_direction", "preprocessed_data_folder", "kvf")[t % 4])
    elif x["cfg"] == "region":
        s["tagging_region"] = str(d / "region-that-is-not-there.nc")
    elif x["cfg"] == "beyond":
        s["preprocess_end_date" if x["do"] == "preprocess" else "tracking_end_date"] = "2021-07-03T00:00"
    elif x["cfg"] == "again":
        s["restart"] = True
        s["tracking_start_date" if x["arg"] == "forward" else "tracking_end_date"] = "2021-07-01T12:00"
    text = "# settings of my run\n" + yaml.safe_dump(s, sort_keys=False) + "# end\n"
    if x["cfg"] == "broken":
        text = "just some text"
    if x["cfg"] != "gone":
        p.write_text(text)
    elif p.exists():
        p.unlink()
    before = {f: Path(f).read_bytes() for n in ("cfg", "out", "pre") for f in glob.glob(str(d / n / "*.yaml")) if Path(f).parent == d / "cfg" or Path(f) == p}
    logs = {f: os.path.getsize(f) for f in glob.glob(str(d / "*" / "*.log"))}
    t0 = time.time()
    stamps = lambda: {k: [(f, os.stat(f).st_mtime_ns, os.stat(f).st_ino) for f in sorted(glob.glob(str(d / g)))]
                      for k, g in dict(pre="pre/*.nc", forward="out/forwardtrack_*.nc", backward="out/backtrack_*.nc").items()}
    stamp0 = stamps()

    def go():
        import xarray as xr
        os.chdir(d / "cfg")
        if "arco-era5" in w["raw"]:
            ds = prep.zarr(cs["arco-era5"])
            xr.open_zarr = lambda *a, **k: ds.copy()
        else:
            def no(*a, **k):
                raise OSError("no such store")
            xr.open_zarr = no
        path = name if x["place"] == "relative" else str(p)
        args = {"track": ["track", path], "preprocess": ["preprocess", x["arg"], path], "removed": [x["arg"]] + ([path] if x["cfg"] == "good" else []),
                "unknown": x["arg"].split() + [path], "show": [x["arg"]]}[x["do"]]
        return track.invoke(*(["--debug"] if x["debug"] else []), *args)
    code, err = in_process(go)
    stamp1 = stamps()
    after = {f: Path(f).read_bytes() if os.path.exists(f) else None for f in before}
    res = d / ("pre" if x["do"] == "preprocess" else "out")
    copy = (res / name).is_file() and (res / name).read_bytes() == text.encode()
    log = any(os.path.getsize(f) > 0 and (f not in logs or os.path.getmtime(f) >= t0 - 1) for f in glob.glob(str(res / "*.log")))
    lab = lambda q, v: "foreign" if any(not holds(f, v) for f in found[q]) else {0: "none", 2: "whole"}.get(len(found[q]), "part")
    found = {q: glob.glob(str(d / "out" / f"{q}track_2021-07-01T*.nc")) for q in ("forward", "back")}
    known = set(glob.glob(str(d / "out" / "*track_*.nc"))) | set(glob.glob(str(d / "out" / "*.yaml"))) | set(glob.glob(str(d / "out" / "*.log"))) | {str(d / "out" / "debug")}
    other = len(set(glob.glob(str(d / "out" / "*"))) - known) + prep.read_dir(base, d / "pre")[1]
    return dict(command=x, code=code, error=err or "", untouched=before == after, copy=copy, log=log, pre=label(d, base), forward=lab("forward", "tagged_evap"), backward=lab("back", "tagged_precip"), other=other,
                wrote=[k for k in stamp0 if stamp0[k] != stamp1[k]])


def session(j):
    d = vf.newdir("cli")
    try:
        cs = make_world(d, j["world"])
        steps = []
        for t, x in enumerate(j["commands"]):
            steps.append(run_command(d, cs, j["world"], x, t + j["id"]))
        return dict(id=j["id"], world=j["world"], steps=steps)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def first_pre(_):
    """preprocessed data to start from"""
    d = vf.newdir("cli")
    cs = make_world(d, dict(raw=["era5"], pre="none"))
    q = run_command(d, cs, dict(raw=["era5"]), dict(do="preprocess", arg="era5", cfg="good", place="own", debug=False), 0)
    f = glob.glob(str(d / "pre" / "*_fluxes_storages.nc"))
    return q, f


def c21(chk):
    chk.assumptions += ["the ARCO-ERA5 store is replaced by data in memory", "commands run in forked processes of one interpreter"]
    chk.model(vf.model_check("CliMC", vf.cfg(invariants=["FromSomewhere"], properties=["FailsCleanly", "KeepsResults", "KeepsRaw", "OneThing"])), "CliMC")
    jobs, r = generate("CliGen", COUNT=300 if vf.THOROUGH else 40, LENGTH=5 if vf.THOROUGH else 4, PARTS=1, PART=0)
    chk.model(r, "CliGen")
    q = vf.fork_map(first_pre, [0])[0]
    if q[0] != "ok":
        raise vf.Machinery(str(q))
    q, f = q[1]
    if q["code"] != 0 or len(f) != 1:
        chk.violation(f"preprocess era5 failed: {q['error']}, files {f}", q)
        return
    PRE["era5"] = f[0]
    jobs = [dict(j, id=n) for n, j in enumerate(jobs)]
    lines = []
    res = track.rerun_odd(session, jobs, vf.fork_map(session, jobs, timeout=200), 200)
    for j, q in zip(jobs, res):
        if q[0] != "ok":
            raise vf.Machinery(f"{j}: {q}")
        lines.append(q[1])
    verdict, st, tr = vf.validate("CliTrace", lines, parts=2)
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines), commands=sum(v["steps"] for v in verdict), commands_succeeded=sum(v["succeeded"] for v in verdict))
    for v in verdict:
        q = lines[v["run"]]
        chk.sample([f"{x['command']['do']} {x['command']['arg']} {x['command']['cfg']} -> {x['code']}" for x in q["steps"]])
        if not v["ok"]:
            b = v["bad"][0]
            e = q["steps"][b["step"] - 1]
            chk.violation(f"session {v['run']}, command {b['step']} {e['command']}: {b['clause']}: specified {b['model']}, observed {b['observed']} {e['error']}", q)


# ------------------------------------------------------------------ C22
UUID = "f9572240-f179-4338-9e1b-82c5598529e2"
PAGE = b"<html><body>Something went wrong: " + b"x" * 600 + b"</body></html>"


def served(x):
    """url -> content; and the files to expect"""
    base = "https://opendap.4tu.nl/thredds"
    name = lambda k: f"20{k}1-08-0{k}_fluxes_storages.nc"
    body = lambda n: (n.encode() + bytes(range(256))) * (3 + len(n)) * 20
    cat = [name(k + 1) for k in range(x["cat"])]
    lst = [("config_example.yaml", "README.txt")[k] for k in range(x["list"])]
    ds = "".join(f'<dataset name="{n}" ID="d/{n}" urlPath="data/{n}"><serviceName>all</serviceName></dataset>' for n in cat)
    if x["nested"]:
        ds = f'<dataset name="inner" ID="inner">{ds}</dataset>'
    xml = ('<?xml version="1.0" encoding="UTF-8"?><catalog xmlns="http://www.unidata.ucar.edu/namespaces/thredds/InvCatalog/v1.0" name="c" version="1.2">'
           '<service name="all" serviceType="Compound" base=""><service name="odap" serviceType="OPENDAP" base="/thredds/dodsC/"/>'
           '<service name="http" serviceType="HTTPServer" base="/thredds/fileServer/"/></service>'
           f'<dataset name="top" ID="top"><metadata inherited="true"><serviceName>all</serviceName></metadata>{ds}</dataset></catalog>').encode()
    art = json.dumps(dict(title="x", custom_fields=[dict(name="Contributors", value="me"), dict(name="Data Link", value=[base + "/catalog/data/catalog.html"]), dict(name="Time", value=[])],
                          files=[dict(name=n, id=k, size=5, download_url=f"https://data.4tu.nl/file/{UUID}/{k}-abc") for k, n in enumerate(lst)])).encode()
    urls = {f"https://data.4tu.nl/v2/articles/{UUID}": ("articles", art), base + "/catalog/data/catalog.xml": ("catalog", xml)}
    for k, n in enumerate(cat):
        urls[base + "/fileServer/data/" + n] = (f"cat{k + 1}", body(n))
    for k, n in enumerate(lst):
        urls[f"https://data.4tu.nl/file/{UUID}/{k}-abc"] = (f"list{k + 1}", body(n))
    return urls, {n: body(n) for n in cat + lst}


def download_batch(jobs):
    return [download_case(j) for j in jobs]


def download_case(j):
    import gzip, io
    import requests
    from urllib3.response import HTTPResponse
    x = j["x"]
    d = vf.newdir("dl")
    cwd = d / "cwd"
    cwd.mkdir()
    os.chdir(cwd)
    urls, want = served(x)
    log, seen = [], {}

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        url = request.url
        moved = url.endswith("?moved")
        key, body = urls.get(url.replace("?moved", ""), ("unknown", PAGE))
        if x["way"] == "redirect" and key.startswith(("cat1", "cat2", "cat3", "list")) and not moved:
            return respond(request, 302, b"", {"Location": url + "?moved"})
        seen[key] = seen.get(key, 0) + 1
        hit = x["fault"] != "none" and (key == x["at"] and x["at"] != "articles" or (key == "articles" and (x["at"] == "articles" and seen[key] == 1 or x["at"] == "articles again" and seen[key] == 2)))
        fault = x["fault"] if hit else "404" if key == "unknown" else "none"
        log.append([key, fault == "none"])
        if fault == "refused":
            raise requests.exceptions.ConnectionError("refused")
        if fault == "slow":
            raise requests.exceptions.ReadTimeout("too slow")
        if fault in ("404", "500", "403"):
            return respond(request, int(fault), PAGE, {"Content-Type": "text/html"})
        if fault == "500 message":
            return respond(request, 500, json.dumps(dict(message="internal error", code=500, files=[], custom_fields=[])).encode(), {"Content-Type": "application/json"})
        if fault == "503 content":
            return respond(request, 503, body, {"Content-Type": "application/json" if key == "articles" else "application/octet-stream"})
        if fault == "html":
            return respond(request, 200, PAGE, {"Content-Type": "text/html"})
        h = {"Content-Type": "application/json" if key == "articles" else "application/octet-stream"}
        if x["way"] == "gzip":
            body = gzip.compress(body)
            h["Content-Encoding"] = "gzip"
        if x["way"] != "chunked" or fault == "cut":
            h["Content-Length"] = str(len(body))
        return respond(request, 200, body[:len(body) // 2] if fault == "cut" else body, h)

    def respond(request, status, body, headers):
        raw = HTTPResponse(body=io.BytesIO(body), headers=headers, status=status, preload_content=False, request_method=request.method, decode_content=False,
                           original_response=None, reason={200: "OK", 302: "Found"}.get(status, "Error"))
        return requests.adapters.HTTPAdapter().build_response(request, raw)
    requests.adapters.HTTPAdapter.send = send
    name = "example-input-eiffel" if x["doi"] == "cli" else "my case"
    t = cwd / name
    if x["dir"] in ("empty", "full"):
        t.mkdir()
    there = {"full": list(want)[:2] + ["mine.txt"], "yaml": ["my_config.yaml"], "nc": ["2021-08-09_fluxes_storages.nc"], "older": [n for n in want if n.endswith(".yaml")],
             "partial": list(want)[:1], "hidden": [".mine"], "deep": ["sub/mine.nc"], "emptied": list(want)}.get(x["dir"], [])
    for n in there:
        (t / n).parent.mkdir(parents=True, exist_ok=True)
        (t / n).write_bytes(b"" if x["dir"] == "emptied" else b"mine " + n.encode())
    if x["dir"] == "file":
        t.write_bytes(b"mine")
    if x["dir"] == "link":
        (d / "elsewhere").mkdir()
        (d / "elsewhere" / "a.nc").write_bytes(b"mine")
        t.symlink_to(d / "elsewhere")
    snap = lambda: sorted((str(p.relative_to(d)), p.read_bytes() if p.is_file() else b"", p.stat().st_mtime_ns if p.is_file() else 0) for p in list(d.rglob("*")) + list((d / "elsewhere").rglob("*")))
    before = snap()
    doi = dict(plain="10.4121/" + UUID + ".v1", https="https://doi.org/10.4121/" + UUID + ".v1", dx="http://dx.doi.org/10.4121/" + UUID + ".v2", upper="https://doi.org/10.4121/" + UUID + ".v1",
               zenodo="10.5281/zenodo.7010594", other="10.1000/xyz123", none="no doi at all", unversioned="10.4121/" + UUID).get(x["doi"], "doi:10.4121/" + UUID + ".v12")
    err = ""
    try:
        if x["doi"] == "cli":
            code, err = track.invoke("download", name)
            ok = code == 0
        else:
            from wam2layers.download import download_from_doi
            download_from_doi(doi, name)
            ok = True
    except Exception as ex:  # noqa: BLE001
        ok, err = False, f"{type(ex).__name__}: {ex}"
    except SystemExit as ex:
        ok, err = not ex.code, "exit"
    files, outside = [], 0
    if x["dir"] == "absent":
        for p in sorted(cwd.rglob("*")):
            if p.is_file():
                if p.parent != t:
                    outside += 1
                    continue
                b, w = p.read_bytes(), want.get(p.name)
                files.append([p.name, "served" if b == w else "prefix" if w is not None and w.startswith(b) else "page" if b.startswith(b"<html") else "other"])
    out = dict(id=j["id"], dir=x["dir"], doi=x["doi"], requests=log, files=files, outside=outside, wanted=sorted(want), kept=before == snap(), success=ok, error=str(err)[:300])
    shutil.rmtree(d, ignore_errors=True)
    return out


def c22(chk):
    chk.assumptions += ["the server is replaced below the requests library; catalogues of catalogues are not followed"]
    chk.model(vf.model_check("Download", vf.cfg(constants=dict(CATALOGUE="SOME1", LIST="SOME2", THERE="SOME3"), invariants=["Untouched", "Complete", "NotPassedOff", "OnlyServed"], properties=["Ends"])), "Download")
    cases, r = generate("DownloadGen")
    chk.model(r, "DownloadGen")
    jobs = [dict(id=n, x=x) for n, x in enumerate(cases)]
    lines = []
    for j, q in zip(jobs, vf.fork_map(download_case, jobs, timeout=60)):
        if q[0] != "ok":
            raise vf.Machinery(f"{j}: {q}")
        lines.append(q[1])
    verdict, st, tr = vf.validate("DownloadTrace", lines, parts=2)
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines), requests_answered=sum(len(q["requests"]) for q in lines), succeeded=sum(q["success"] for q in lines))
    for v in sorted(verdict, key=lambda v: v["run"]):
        q, x = lines[v["run"]], cases[v["run"]]
        if v["run"] % 50 == 0:
            chk.sample(dict(situation=x, success=q["success"], files=q["files"]))
        if not v["ok"]:
            b = v["bad"][0]
            chk.violation(f"{x}: {b['clause']}: specified {b['model']}, observed {b['observed']}; {q['error']}", q)


# ------------------------------------------------------------------ C23
def retry_case(j):
    import builtins
    import xarray as xr
    c, script = j["case"], {s["at"]: s for s in j["script"]}
    d = vf.newdir("run")
    try:
        cfg = track.setup(c, d)
        pre = os.path.realpath(d / "pre")
        keep, keepsleep, events = xr.open_dataset, time.sleep, []
        st = dict(opened=0, left=None)

        def opening(f, *a, **k):
            name = os.path.realpath(f) if isinstance(f, (str, os.PathLike)) else ""
            if not name.startswith(pre):
                return keep(f, *a, **k)
            if st["left"] is None:                          # a new read
                st["opened"] += 1
                s = script.get(st["opened"], dict(times=0, then="ok"))
                st["left"], st["then"] = s["times"], s["then"]
            if st["left"] > 0:
                st["left"] -= 1
                events.append(dict(kind="open", file=os.path.basename(name), outcome="spurious"))
                raise IndexError("index 0 is out of bounds for axis 0 with size 0")
            then, st["left"] = st["then"], None
            events.append(dict(kind="open", file=os.path.basename(name), outcome=then))
            if then != "ok":
                raise getattr(builtins, then)("no luck")
            return keep(f, *a, **k)

        def sleeping(s):
            if s >= 0.02:
                events.append(dict(kind="pause", ms=int(s * 1000 + 1e-6)))
            else:
                keepsleep(s)
        undo = [vf.stand_in(xr, "open_dataset", opening), vf.stand_in(time, "sleep", sleeping)]
        try:
            code, ex = track.invoke("track", cfg)
        finally:
            for u in undo:
                u()
        outs = track.read_outputs(c, d / "out")
        return dict(id=j["id"], events=events, code=code, error=(ex or "").split(":")[0], digests=[o["dig"] for o in outs])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c23(chk):
    import transport
    chk.assumptions += ["failures are injected into xarray.open_dataset, pauses recorded instead of slept"]
    chk.model(vf.model_check("RetryMC", vf.cfg(constants=dict(READS=4), invariants=["NotForever"], properties=["EachReadAnew", "Ends"])), "RetryMC")
    scripts, r = generate("RetryGen", PAIRS="SOME2" if vf.THOROUGH else "SOME1")
    chk.model(r, "RetryGen")
    r = rng(23)
    cases = [transport.general(r, f"retry{k}", ("forward", "backward")[k], [], model=False, g=transport.some_grid(r, m=4, n=4), nrec=3, dts=(3600,), window=False) for k in range(2)]
    jobs = [dict(id=n, case=cases[n % 2], script=s) for n, s in enumerate([[], []] + scripts + (scripts if vf.THOROUGH else []))]
    if vf.THOROUGH:
        for n, j in enumerate(jobs[2 + len(scripts):]):
            j["case"] = cases[(n + 1) % 2]
    res = track.rerun_odd(retry_case, jobs, vf.fork_map(retry_case, jobs, timeout=60), 60)
    lines = []
    for j, q in zip(jobs, res):
        if q[0] == "exc":
            raise vf.Machinery(q[1])
        if q[0] != "ok":
            chk.violation(f"run with failures {j['script']} ended abnormally: {q}", j["script"])
            continue
        lines.append(q[1])
    plain = [next(q for q in lines if q["id"] == k) for k in range(2)]
    for k, q in enumerate(plain):
        if q["code"] != 0:
            chk.violation(f"run without failures failed: {q['error']}", track.brief(cases[k]))
            return
    by = {j["id"]: j for j in jobs}
    for q in lines:
        q["expected"] = plain[cases.index(by[q["id"]]["case"])]["digests"]
    verdict, st, tr = vf.validate("RetryTrace", lines, parts=2)
    chk.add(states=st, transitions=tr, traces_validated_against_impl=len(lines), attempts=sum(x["kind"] == "open" for q in lines for x in q["events"]),
            pauses=sum(x["kind"] == "pause" for q in lines for x in q["events"]), failed_runs=sum(q["code"] != 0 for q in lines))
    chk.sample(lines[-1]["events"])
    at = {q["id"]: q for q in lines}
    for v in verdict:
        if not v["ok"]:
            b = v["bad"][0]
            chk.violation(f"failures {by[v['run']]['script']}: {b['clause']} (event {b['event']}): specified {b['model']}, observed {b['observed']}", dict(script=by[v["run"]]["script"], bad=v["bad"], trace=at[v["run"]]))
