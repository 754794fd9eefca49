"""Forcing that is served by an OPeNDAP server instead of read from local files."""
import shutil, time
import numpy as np
import vf, track, rel, dap, reports
from track import ONE
from transport import rng, pick, general, both_dirs, some_grid, ring_grid
from relations import in_dir, span


@in_dir
def served(c, d):
    root = d / "pub" / c["path"] if c["path"] else d / "pub"
    track.write_inputs(c, root)
    if c["bbox"] is None:
        track.write_mask(c, d / "mask.nc")
    over = {}
    if c["shape"]:
        reports.write_shape(c["shape"], d)
        over = dict(tagging_region=str(d / "region.shp"))
    code, ex, A = track.go(c, d, "local", preprocessed_data_folder=str(root), **over)
    if code:
        return dict(errors=[f"run on local files failed: {ex}"])
    lines, errs = [], []
    vf.stand_in(time, "sleep", lambda s: None)         # pauses between attempts
    days = sorted({k * c["tin"] // 86400 for k in range(len(c["recs"]))})
    for i, f in enumerate(c["faults"]):
        down = {track.when(c, f[1] * 86400).strftime("%Y-%m-%d")} if f[0] == "down" else set()

        def fault(n, path):
            if any(x in path for x in down):
                return f[2]
            return f[2] if f[0] == "once" and f[1] <= n < f[1] + f[3] else 0
        with dap.Server(d / "pub", fault) as s:
            u = s.url + (f"/{c['path']}" if c["path"] else "") + ("/" if c["slash"] else "")
            code, ex, B = track.go(c, d, f"remote{i}", preprocessed_data_folder=u, **over)
            faults = [k * c["tin"] for k in range(len(c["recs"])) if f[0] == "down" and k * c["tin"] // 86400 == f[1]]
            lines.append(rel.line(f"{c['id']}/{f[0]}{i}", c, A, B, exact=True, code=code, faults=faults, mayfail=f[0] == "once" or bool(c["shape"])))
            if code and f[0] == "fine":
                errs.append(f"run on served files failed: {ex}")
            if not s.log:
                errs.append("nothing was requested from the server")
            if B and f[0] == "fine" and len(A) > 2:     # continue from an output
                tr = A[len(A) // 2]["t"]
                out = d / f"restart{i}"
                out.mkdir()
                shutil.copy(d / f"remote{i}" / A[len(A) // 2]["file"], out)
                code, ex, R = track.go(c, d, out.name, preprocessed_data_folder=u, restart=True, **span(c, tr), **over)
                lines.append(rel.line(f"{c['id']}/restart{i}", c, A, [o for o in R if o["t"] != tr], frm=tr, tol=60, code=code))
    return dict(lines=lines, errors=errs)


def c31(chk):
    chk.assumptions += ["the server speaks DAP2 and sends whole variables or slices of them", "pauses between attempts are skipped"]
    r = rng(31)
    cases = []
    for k in range(48 if vf.THOROUGH else 16):
        shape = None
        if k % 4 == 3:
            shape = reports.region_case(r, f"shape{k}", k)
        g = some_grid(r, m=4, n=5) if k % 5 else ring_grid(r, n=5)
        if shape:
            g = {x: shape[x] for x in ("m", "n", "lat", "lon", "dlat", "dlon")}
        tin = int(pick(r, 3600, 10800, 21600))
        dt = int(pick(r, tin // 2, tin, tin // 3))
        c = general(r, f"served{k}", both_dirs(k), [], model=False, g=g, per=k % 5 == 0, nrec=int(pick(r, 3, 5)) if tin < 21600 else 7, tins=(tin,), dts=(dt,), flux=0.5, surf=2,
                    smin=3, smax=12)
        c["shape"] = shape
        if k % 4 == 1:
            c["bbox"], ts = None, [-tin + 411, tin + 411, 2 * tin + 411]
            c["masks"] = [dict(t=t, w=r.choice([0, ONE // 2, ONE], (c["m"], c["n"])), dyn=True) for t in ts]
        if k % 4 == 2 and not c["per"]:
            track.pad(c, north=1, south=int(r.integers(0, 2)), west=1, east=int(r.integers(0, 2)), seed=k)
        c["path"] = pick(r, "pre", "data/era5/pre", "")
        c["slash"] = bool(r.integers(2))
        n = len(c["recs"])
        last = (n - 1) * tin // 86400
        c["faults"] = [("fine",), ("once", int(r.integers(1, 40)), int(pick(r, 404, 500, 503)), int(pick(r, 1, 1, 2, 4))),
                       ("once", int(r.integers(1, 12)), int(pick(r, 404, 500, 503)), 1), ("down", int(r.integers(0, last + 1)), int(pick(r, 404, 500, 503)))]
        cases.append(c)
    lines, _ = rel.jobs(chk, served, cases, timeout=400)
    got = rel.judge(chk, lines)
    chk.add(runs_on_served_files=len(lines), runs_stopped_by_fault=sum(v["stopped"] for v in got.values()),
            runs_with_failing_requests_completed=sum("/once" in q["id"] and q["code"] == 0 for q in lines),
            runs_with_failing_requests_stopped=sum("/once" in q["id"] and q["code"] != 0 for q in lines))
    chk.sample([q["id"] for q in lines][:8])
