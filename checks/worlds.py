"""Attribution adds up (C32, SumTrace.tla); the same world seen differently (C33, RelTrace.tla)."""
import numpy as np
import vf, track, rel
from track import ONE
from transport import rng, pick, general, both_dirs, ring_grid, some_grid, mc, fluxscale, with_domain
from relations import in_dir


# ------------------------------------------------------------------ C32
@in_dir
def adding(c, d):
    track.prepare(c, d)
    code, ex, W = track.go(c, d, "whole")
    if code:
        return dict(errors=[f"run failed: {ex}"])
    parts, errs = [], []
    for k, p in enumerate(c["parts"]):
        q = dict(c, **p)
        if q["bbox"] is None:
            track.write_mask(q, d / "mask.nc")
        over = dict(tagging_region=list(q["bbox"])) if q["bbox"] is not None else {}
        code, ex, P = track.go(q, d, f"part{k}", **over)
        if code:
            errs.append(f"run for part {k} failed: {ex}")
        parts.append(rel.outs(P))
    if errs:
        return dict(errors=errs)
    room = int(min(min(x["su"].min(), x["sl"].min()) for x in c["recs"])) - 64
    return dict(lines=[dict(id=c["id"], m=c["m"], n=c["n"], per=c["per"], dir=c["dir"], room=room, times=c["times"], tol=(len(parts) + 1) * 16 * max(c["times"]), whole=rel.outs(W), parts=parts)])


def split_box(r, c):
    """two boxes with the cells of one, cut between cell centres"""
    w, s, e, n = c["bbox"]
    norm = lambda x: ((x + 180) % 360) - 180
    if r.random() < 0.5 and n - s > c["dlat"] / 900:
        k = int(r.integers(1, max(2, round((n - s) * 1000 / c["dlat"]))))
        cut = s + (k - 0.5) * c["dlat"] / 1000
        return [[w, s, e, cut], [w, cut, e, n]]
    cut = norm(w + (0.5 if (e - w) % 360 > c["dlon"] / 1000 else 0.25) * c["dlon"] / 1000)
    return [[w, s, cut, n], [cut, s, e, n]]


def c32(chk):
    chk.assumptions += ["claimed as long as no layer is overfull or overdrawn with tagged moisture"]
    mc(chk, "additive", ["Additive"], thorough=dict(FluxVals="FX3", Weights="{0,1,4}"))
    mc(chk, "additive ring", ["Additive"], Per="TRUE", N=4, StorVals="SV1", thorough=dict(StorVals="SV2"))
    r = rng(32)
    cases = []
    for k in range(100 if vf.THOROUGH else 40):
        form = ("weights", "box", "period", "share", "moving")[k % 5]
        per = k % 4 == 0 and form != "box"
        g = ring_grid(r) if per else some_grid(r, m=5, n=int(pick(r, 5, 6)))
        m, n = g["m"], g["n"]
        rich = bool(r.random() < 0.7)
        c = general(r, f"{form}{k}", both_dirs(k // 5), [], model=False, g=g, per=per, flux=pick(r, 0.2, 0.6, 1.5), surf=pick(r, 0.5, 2), smin=14 if rich else 6, smax=24, nrec=int(pick(r, 3, 4, 6)),
                    dts=(900, 1200, 1800, 3600), kvfs=(0, 0.5, 1, 3), masks=[dict(t=0, w=np.full((m, n), ONE))], outf=1)
        whole = c["masks"][0]["w"]
        T = c["t1"]
        c["times"] = [1, 1]
        if form == "weights":
            q = int(pick(r, 2, 3))
            w = [r.integers(0, 5, (m, n)) * (ONE // 16) for _ in range(q)]
            if k % 2:     # slivers of a cell
                w = [np.where(r.random((m, n)) < 0.6, ONE >> r.integers(3, 10, (m, n)), x) for x in w]
            if r.random() < 0.5:     # disjoint
                who = r.integers(0, q + 1, (m, n))
                w = [np.where(who == i, ONE, 0) for i in range(q)]
            c["masks"] = [dict(t=0, w=sum(w))]
            c["parts"] = [dict(masks=[dict(t=0, w=x)]) for x in w]
            c["times"] = [1] * q
        elif form == "box":
            from transport import inner_box, clean_bbox
            b = clean_bbox(inner_box(g, r))
            e = [g["dlon"] / 4000, g["dlat"] / 4000]
            norm = lambda x: ((x + 180) % 360) - 180
            c["bbox"] = [norm(b[0] - e[0]), b[1] - e[1], norm(b[2] + e[0]), b[3] + e[1]]
            c["parts"] = [dict(bbox=x) for x in split_box(r, c)]
        elif form == "period":
            a, b = sorted(int(x) for x in r.integers(0, T // c["dt"] + 1, 2))
            c["tag0"], c["tag1"] = a * c["dt"], b * c["dt"]
            cut = int(pick(r, (a + b) // 2 * c["dt"] + c["dt"] // 3, (a + b) // 2 * c["dt"]))
            c["parts"] = [dict(tag1=cut), dict(tag0=cut + 1)] if cut < c["tag1"] else [dict(tag1=c["tag1"]), dict(tag0=c["tag1"] + 1, tag1=c["tag1"] + 1)]
        elif form == "share":
            w = r.integers(0, 5, (m, n)) * (ONE // 4)
            f = int(pick(r, 2, 4, 16, 64))
            c["masks"] = [dict(t=0, w=w)]
            c["parts"] = [dict(masks=[dict(t=0, w=w // f)])]
            c["times"] = [f]
        else:
            ts = [x + 431 for x in range(-T // 2, 2 * T, T // 2)]
            w = [[r.integers(0, 3, (m, n)) * (ONE // 4) for _ in ts] for _ in range(2)]
            c["masks"] = [dict(t=t, w=x + y, dyn=True) for t, x, y in zip(ts, *w)]
            c["parts"] = [dict(masks=[dict(t=t, w=x, dyn=True) for t, x in zip(ts, v)]) for v in w]
        if k % 3 == 1 and form != "box":
            with_domain(r, c)
        cases.append(c)
    lines, _ = rel.jobs(chk, adding, cases)
    verdict, st, tr = vf.validate("SumTrace", lines, weight=lambda q: len(q["whole"]) * q["m"] * q["n"] * (1 + len(q["parts"])))
    chk.add(states=st, transitions=tr, traces_validated_against_impl=sum(1 + len(q["parts"]) for q in lines), outputs_judged=sum(v["judged"] for v in verdict), runs_without_limit=sum(v["free"] for v in verdict))
    chk.sample([q["id"] for q in lines][:8])
    for v in verdict:
        if not v["ok"]:
            b = v["bad"][0]
            c = next(c for c in cases if c["id"] == v["run"])
            chk.violation(f"{v['run']} ({c['dir']}): {b['clause']} at t={b['t']}, cell ({b['row']},{b['col']}): sum of the parts {b['model'] / ONE:.6f}, whole {b['observed'] / ONE:.6f}", dict(bad=v["bad"], case=track.brief(c)))


# ------------------------------------------------------------------ C33
ARRAYS = ("xu", "xl", "yu", "yl", "su", "sl", "e", "p")


def mapped(c, f, signs=()):
    """the same case with every field mapped"""
    q = dict(c)
    q["recs"] = [{v: f(x) * (-1 if v in signs else 1) for v, x in rec.items()} for rec in c["recs"]]
    q["masks"] = [dict(x, w=f(np.asarray(x["w"]))) for x in c["masks"]]
    return q


norm = lambda x: ((x + 180000) % 360000) - 180000


def reshaped(q, no, so, we, ea):
    if "pad" in q:
        track.pad(q, no, so, we, ea, q["pad"][4] + 1)
    return q


def eastwest(c):
    q = mapped(c, lambda a: a[:, ::-1], ("xu", "xl"))
    q["lon"] = c["lon"] if c["per"] else [norm(-x) for x in c["lon"][::-1]]
    if c["bbox"] is not None:
        w, s, e, n = c["bbox"]
        q["bbox"] = [-e, s, -w, n]
    p = c.get("pad", (0, 0, 0, 0, 0))
    return reshaped(q, p[0], p[1], p[3], p[2]), dict(flipx=True)


def northsouth(c):
    q = mapped(c, lambda a: a[::-1], ("yu", "yl"))
    q["lat"] = [-x for x in c["lat"][::-1]]
    if c["bbox"] is not None:
        w, s, e, n = c["bbox"]
        q["bbox"] = [w, -n, e, -s]
    p = c.get("pad", (0, 0, 0, 0, 0))
    return reshaped(q, p[1], p[0], p[2], p[3]), dict(flipy=True)


def amounts(c, num, den):
    q = dict(c)
    q["recs"] = [{v: x * num / den for v, x in rec.items()} for rec in c["recs"]]
    return q, dict(num=num, den=den)


def moved(c, by):
    q = dict(c, lon=[norm(x + by) for x in c["lon"]])
    if c["bbox"] is not None:
        w, s, e, n = c["bbox"]
        q["bbox"] = [norm(int(round(w * 1000)) + by) / 1000, s, norm(int(round(e * 1000)) + by) / 1000, n]
    p = c.get("pad")
    return reshaped(q, *p[:4]) if p else q, {}


def dated(c, base, calendar):
    return dict(c, base=base, calendar=calendar), {}


@in_dir
def seen(c, d):
    track.prepare(c, d)
    code, ex, A = track.go(c, d, "ref")
    if code:
        return dict(errors=[f"run failed: {ex}"])
    lines, errs = [], []
    for name, fn, args, tol in c["views"]:
        q, how = fn(c, *args)
        e = d / name
        track.prepare(q, e)
        code, ex, B = track.go(q, e, "out")
        if code:
            errs.append(f"run in the world {name} {args} failed: {ex}")
            continue
        lines.append(rel.line(f"{c['id']}/{name}{list(args) if args else ''}", c, A, B, tol=tol, **how))
    return dict(lines=lines, errors=errs)


def c33(chk):
    chk.assumptions += ["sums in another order: compared to single-precision rounding; amounts scaled by powers of two"]
    mc(chk, "views", ["EastIsWest", "NorthIsSouth", "AmountsScale"], thorough=dict(FluxVals="FX3"))
    mc(chk, "views of a ring", ["EastIsWest", "NorthIsSouth", "AmountsScale"], Per="TRUE", N=4, StorVals="SV1", thorough=dict(StorVals="SV2"))
    r = rng(33)
    cases = []
    dates = [("2020-02-28", "standard"), ("2019-12-31", "noleap"), ("2021-02-29", "360_day"), ("2100-02-28", "julian"), ("1999-06-30", "proleptic_gregorian"), ("2023-02-28", "all_leap")]
    for k in range(60 if vf.THOROUGH else 22):
        per = k % 4 == 0
        g = ring_grid(r) if per else some_grid(r, m=5, n=int(pick(r, 5, 6)))
        c = general(r, f"world{k}", both_dirs(k // 2), [], model=False, g=g, per=per, flux=pick(r, 0.3, 0.6, 2, 5), surf=pick(r, 1, 4), smin=3, smax=16, nrec=int(pick(r, 3, 4, 10)),
                    tins=(3600, 10800), dts=(1800, 3600, 1200), cut=k % 3 == 1, window=k % 5 == 3)
        c["outf"] = c["dt"] if c["t1"] // c["dt"] <= 12 else 10800
        if c["bbox"] is not None:      # off the cell centres
            e = g["dlon"] / 4000, g["dlat"] / 4000
            b = c["bbox"]
            c["bbox"] = [norm(int(round((b[0] - e[0]) * 1000))) / 1000, b[1] - e[1], norm(int(round((b[2] + e[0]) * 1000))) / 1000, b[3] + e[1]]
        views = [("eastwest", eastwest, (), 60), ("northsouth", northsouth, (), 60)]
        views.append(("scaled", amounts, ((2, 1), (1, 16), (1, 128), (8, 1), (1, 2), (1, 64))[k % 6], 6))
        views.append(("dated", dated, dates[k % 6], 0))
        if not per:
            views.append(("moved", moved, (int(pick(r, 90000, -120000, 180000 - norm(c["lon"][-2]), 7000 * 13)),), 40))
        c["views"] = views
        cases.append(c)
    lines, _ = rel.jobs(chk, seen, cases)
    rel.judge(chk, lines)
    for q in lines:
        chk.add(**{"seen_" + q["id"].split("/")[1].split("[")[0]: 1})
    chk.sample([q["id"] for q in lines][:8])


# ------------------------------------------------------------------ C36
@in_dir
def reaching(c, d):
    track.prepare(c, d)
    code, ex, A = track.go(c, d, "ref")
    if code:
        return dict(errors=[f"run failed: {ex}"])
    q = dict(c, **c["other"])
    e = d / "other"
    track.prepare(q, e)
    code, ex, B = track.go(q, e, "out")
    if code:
        return dict(errors=[f"run with other {c['what']} failed: {ex}"])
    return dict(lines=[dict(id=c["id"], dir=c["dir"], m=c["m"], n=c["n"], per=c["per"], dt=c["dt"], tin=c["tin"], t0=c["t0"], t1=c["t1"], tag0=c["tag0"], tag1=c["tag1"], outf=c["outf"],
                            cells=[[int(i) + 1, int(j) + 1] for i, j in c["cells"]], recs=[k * c["tin"] for k in c["changed"]], mask=c["what"] == "region", A=rel.outs(A), B=rel.outs(B))])


def c36(chk):
    chk.assumptions += ["cells out of reach agree exactly (stored single-precision values)"]
    mc(chk, "local", ["Local"], N=4, StorVals="SV1", thorough=dict(FluxVals="FX3", StorVals="SV2"))
    mc(chk, "local ring", ["Local"], Per="TRUE", N=5, StorVals="SV1", SurfVals="PV1", thorough=dict(StorVals="SV2"))
    r = rng(36)
    cases = []
    for k in range(150 if vf.THOROUGH else 56):
        per = k % 4 == 0
        m, n = int(pick(r, 6, 8)), int(pick(r, 8, 9, 10))
        g = ring_grid(r, n=int(pick(r, 8, 10, 12)), m=m) if per else some_grid(r, m=m, n=n, spacings=(500, 750, 1000))
        n = g["n"]
        c = general(r, f"reach{k}", both_dirs(k), [], model=False, g=g, per=per, flux=pick(r, 0.5, 1, 4), surf=pick(r, 1, 4), smin=3, smax=16, nrec=int(pick(r, 3, 4)), tins=(3600, 7200), dts=(1800, 3600, 1200),
                    kvfs=(0, 1, 3), masks=[dict(t=0, w=r.choice([0, ONE // 4, ONE], (m, n), p=[0.2, 0.2, 0.6]))], outf=int(pick(r, 1, 1, 2)), window=k % 5 == 1)
        if k % 3 != 1:       # some cells are almost dry, whatever the wind
            dry = r.random((m, n)) < 0.15
            amount = pick(r, 0.001, 0.004, 0.03)
            for q in c["recs"]:
                for v in ("su", "sl"):
                    if r.random() < 0.8:
                        q[v] = np.where(dry, np.rint(r.uniform(0.3, 1, (m, n)) * amount * ONE) + 1, q[v])
        what = ("forcing", "region", "forcing")[k % 3]
        if what == "region" and k % 2:        # nothing is tagged anywhere else
            c["masks"] = [dict(t=0, w=np.zeros((m, n), dtype="int64"))]
        cells = [(int(r.integers(0, m)), int(r.integers(0, n))) for _ in range(int(pick(r, 1, 1, 2)))]
        changed = []
        if what == "region":
            w = np.array(c["masks"][0]["w"])
            for x in cells:
                w[x] = ONE // 2 if w[x] != ONE // 2 else 0
            other = dict(masks=[dict(t=0, w=w)])
        else:
            changed = sorted({int(r.integers(0, len(c["recs"])))} | ({len(c["recs"]) - 1} if c["dir"] == "forward" and k % 2 else set()))
            recs = [{v: np.array(a) for v, a in q.items()} for q in c["recs"]]
            for i in changed:
                for x in cells:
                    for v in track.LEVELVARS:
                        recs[i][v][x] = -2 * recs[i][v][x]
                    for v in ("su", "sl"):
                        recs[i][v][x] = recs[i][v][x] * pick(r, 1, 2, 8) // pick(r, 1, 2, 3, 16)
                    for v in ("e", "p"):
                        recs[i][v][x] = recs[i][v][x] * 3
            other = dict(recs=recs)
        c.update(what=what, cells=cells, changed=changed, other=other)
        cases.append(c)
    lines, _ = rel.jobs(chk, reaching, cases)
    verdict, st, tr = vf.validate("ConeTrace", lines, weight=lambda q: len(q["A"]) * q["m"] * q["n"])
    chk.add(states=st, transitions=tr, traces_validated_against_impl=2 * len(lines), pairs_that_differed=sum(v["differed"] > 0 for v in verdict), cells_out_of_reach=sum(v["beyond"] for v in verdict))
    chk.sample([dict(run=q["id"], dir=q["dir"], cells=q["cells"], recs=q["recs"], mask=q["mask"]) for q in lines[:6]])
    for v in verdict:
        if not v["ok"]:
            b = v["bad"][0]
            c = next(c for c in cases if c["id"] == v["run"])
            chk.violation(f"{v['run']} ({c['dir']}): other {c['what']} in cells {[(i + 1, j + 1) for i, j in c['cells']]} (records {c['changed']}, every {c['tin']} s): {b['clause']} differs at t={b['t']} in cell ({b['row']},{b['col']}), out of reach: "
                          f"{b['model'] / ONE:.6f} and {b['observed'] / ONE:.6f}", dict(bad=v["bad"], case=track.brief(c)))
