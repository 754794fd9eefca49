"""Tracking runs judged against the transport specification (TrackTrace.tla)."""
import numpy as np
import vf, track
from track import ONE

MC_ALL = ["BalanceCloses", "Bounded", "EdgesEmpty", "Capped", "ClosureShares", "TaggedIsSurfaceFlux"]


def rng(salt):
    return np.random.default_rng([vf.SEED, salt])


def pick(r, *xs):
    return xs[int(r.integers(len(xs)))]


def some_grid(r, m=None, n=None, equal=False, spacings=(500, 750, 1000, 1500, 2000)):
    m = m or int(r.integers(4, 7))
    n = n or int(r.integers(4, 8))
    dlat = int(pick(r, *spacings))
    dlon = dlat if equal else int(pick(r, *spacings))
    lat0 = int(r.integers(-55, 66)) * 1000 + int(pick(r, 0, 250, 500))
    lon0 = int(pick(r, -180000, -20000, 0, 100000, 178000))
    if lon0 == 178000:   # cross the antimeridian
        lon0 = 180000 - dlon * int(r.integers(1, n))
    return track.grid(m, n, lat0=lat0, dlat=dlat, lon0=lon0, dlon=dlon)


def inner_box(g, r=None):
    """a region well inside the grid, edges on cell centres"""
    m, n = g["m"], g["n"]
    if r is None:
        i0, i1, j0, j1 = 1, m - 2, 1, n - 2
    else:
        i0, i1 = sorted(r.choice(np.arange(1, m - 1), 2, replace=False))
        j0, j1 = sorted(r.choice(np.arange(1, n - 1), 2, replace=False))
    return [g["lon"][j0] / 1000, g["lat"][i1] / 1000, g["lon"][j1] / 1000, g["lat"][i0] / 1000]


def fluxscale(g):
    """per-step flux (kg m-2 * degree) that moves about one kg m-2"""
    return min(g["dlat"], g["dlon"]) / 1000


def ring(n, m=4, dlat=500):
    return dict(m=m, n=n, dlon=360000 // n, dlat=dlat)


def ring_grid(r, n=None, m=4, dlat=500, off=0):
    n = n or int(pick(r, 4, 6, 8))
    dlon = 360000 // n
    lat0 = int(r.integers(-60, 60)) * 1000
    g = track.grid(m, n, lat0=lat0, dlat=dlat, lon0=-180000 + off, dlon=dlon)
    return g


def mc(chk, name, invariants, dirs=("forward", "backward"), quick=None, thorough=None, **kw):
    base = dict(Per="FALSE", N=3, FluxVals="FX2", StorVals="SV2", SurfVals="PV2", Weights="{0,4}", Kvf=3, Starts="{0,3}", MaxStep=1)
    base.update(kw)
    base.update((thorough if vf.THOROUGH else quick) or {})
    for d in dirs:
        r = vf.model_check("TransportMC", vf.cfg(constants=dict(Dir=f'"{d}"', **base), invariants=invariants), timeout=700)
        chk.model(r, f"TransportMC {name} {d} {invariants}")


def clean_bbox(b):
    return [float(x) for x in b]


# ------------------------------------------------------------------ families
def general(r, id, dir, check, model=True, flux=0.6, surf=1.0, smin=2.0, smax=20.0, nrec=4, per=False, calm=0.0, outf=1, smooth=False,
            dts=(900, 1800, 3600), tins=(3600,), kvfs=(0, 0.5, 1, 3), g=None, window=False, **kw):
    if g is None:
        g = ring_grid(r) if per else some_grid(r)
    tin = int(pick(r, *tins))
    dts = [x for x in dts if x <= tin * 2]
    dt = int(pick(r, *dts))
    outf = even(dt, outf)
    # keep s * area below the fixed-point limit
    amax = 1.0 * g["dlat"] / 1000 * g["dlon"] / 1000
    smax = min(smax, 900 / amax)
    recs = track.forcing(r, g["m"], g["n"], nrec, flux=flux * fluxscale(g), smin=min(smin, smax / 2), smax=smax, surf=surf, calm=calm, smooth=smooth)
    if r.random() < 0.5:  # a windless cell
        track.calm_cells(recs, [(int(r.integers(0, g["m"])), int(r.integers(0, g["n"])))])
    t1 = (nrec - 1) * tin
    bbox = kw.pop("bbox", None)
    masks = kw.pop("masks", None)
    if bbox is None and masks is None:
        if per or r.random() < 0.4:
            w = r.choice([0, ONE // 4, ONE], (g["m"], g["n"]), p=[0.4, 0.2, 0.4])
            masks = [dict(t=0, w=w)]
        else:
            bbox = clean_bbox(inner_box(g, r))
    tag0 = tag1 = None
    if window:
        a, b = sorted(r.integers(0, t1 // dt + 1, 2))
        tag0, tag1 = int(a) * dt, int(b) * dt
    cut = kw.pop("cut", 0)
    c = track.mk_case(id, g, recs, dir=dir, dt=dt, tin=tin, kvf=float(pick(r, *kvfs)), per=per, outf=dt * outf, bbox=bbox, masks=masks,
                      t1=t1, tag0=tag0, tag1=tag1, check=check, model=model, **kw)
    return with_domain(r, c) if cut else c


def with_domain(r, c):
    """the same case on a tracking domain of larger files"""
    ns = [int(x) for x in r.integers(0, 3, 2)]
    ns = [min(ns[0], (89000 - c["lat"][0]) // c["dlat"]), min(ns[1], (89000 + c["lat"][-1]) // c["dlat"])]
    we = [0, 0] if c["per"] or c["n"] * c["dlon"] > 350000 else [int(x) for x in r.integers(1, 3, 2)]
    return track.pad(c, *ns, *we, seed=int(r.integers(1, 1000)))


def pits(r, id, dir, check, **kw):
    """cells with little moisture in both layers between moist, windy neighbours: overdrawn there, overfilled elsewhere"""
    g = some_grid(r, m=5, n=6, spacings=(750, 1000, 1500))
    recs = track.forcing(r, 5, 6, 3, flux=pick(r, 2.0, 5.0) * fluxscale(g), smin=8, smax=20, surf=2.0)
    dry = r.random((5, 6)) < 0.3
    dry[2, 2] = True
    for q in recs:
        for v in ("su", "sl"):
            q[v] = np.where(dry, np.rint(r.uniform(0.3, 1.0, dry.shape) * 64) * (ONE // 64), q[v])
        if r.random() < 0.7:   # air leaving the dry cell in the middle on all sides, in the sense of the run
            s = 1 if dir == "forward" else -1
            for v, sg in (("xu", 1), ("xl", 1)):
                q[v][2, 1], q[v][2, 3] = -s * abs(q[v][2, 1]), s * abs(q[v][2, 3])
            for v in ("yu", "yl"):
                q[v][1, 2], q[v][3, 2] = s * abs(q[v][1, 2]), -s * abs(q[v][3, 2])
            for v in track.LEVELVARS:
                q[v][2, 2] = 0
    return track.mk_case(id, g, recs, dir=dir, dt=int(pick(r, 1800, 3600)), kvf=float(pick(r, 0, 0.5, 3)), masks=[dict(t=0, w=np.full((5, 6), ONE))],
                         check=check, **kw)


def even(dt, k):
    """the largest number of steps up to k that fills days evenly"""
    return next(q for q in range(k, 0, -1) if 86400 % (q * dt) == 0)


def both_dirs(k):
    return ("forward", "backward")[k % 2]


def c01(chk):
    chk.assumptions += ["storages positive; grid regular", "balance evaluated to the rounding of single-precision output fields"]
    mc(chk, "balance", ["BalanceCloses"], thorough=dict(FluxVals="FX3", StorVals="SV3", SurfVals="PV3", Starts="{0,3,8}"))
    mc(chk, "balance, ring", ["BalanceCloses"], dirs=("backward", "forward"), Per="TRUE", N=4, thorough=dict(FluxVals="FX3", StorVals="SV3"))
    r = rng(1)
    cases = []
    for k in range(220 if vf.THOROUGH else 64):
        cases.append(general(r, f"balance{k}", both_dirs(k), ["balance"], model=False,
                             flux=pick(r, 0.2, 1, 3, 10), surf=pick(r, 0.0, 0.5, 3, 15), smin=pick(r, 0.25, 1, 5), smax=pick(r, 6, 12, 30),
                             per=k % 5 == 0, cut=k % 4 == 0, calm=pick(r, 0, 0.3), outf=int(pick(r, 1, 2, 3, 8)), window=k % 3 == 0,
                             nrec=7 if vf.THOROUGH else 5, dts=(600, 900, 1800, 3600)))
    cases += [pits(r, f"pits{k}", both_dirs(k), ["balance"], model=False) for k in range(60 if vf.THOROUGH else 16)]
    byid, lines = track.check_runs(chk, cases)
    witness(chk, lines)


def witness(chk, lines):
    """how much of the bookkeeping these runs exercised (non-vacuity)"""
    w = dict(intervals_with_losses=0, intervals_with_gains=0, intervals_with_tracked=0, intervals_with_tagged=0)
    for q in lines:
        for o in q["outs"]:
            for k, f in (("losses", "loss"), ("gains", "gain"), ("tracked", "rl"), ("tagged", "tag")):
                w["intervals_with_" + k] += any(x > 100 for row in o[f] for x in row)
    chk.add(**w)
    for q in lines[:3]:
        chk.sample(dict(run=q["id"], dir=q["dir"], grid=[q["m"], q["n"]], dt=q["dt"], outputs=[o["t"] for o in q["outs"]][:5]))
    return w


def c02(chk):
    chk.assumptions += ["storages positive; surface fluxes not negative"]
    mc(chk, "bounds", ["Bounded"], thorough=dict(FluxVals="FX3", StorVals="SV3", SurfVals="PV3", Starts="{0,3,8}"))
    r = rng(2)
    cases = []
    for k in range(220 if vf.THOROUGH else 64):
        cases.append(general(r, f"bounds{k}", both_dirs(k), ["bounds"], model=False,
                             flux=pick(r, 0.0, 0.5, 3, 12), surf=pick(r, 0.2, 3, 15, 40), smin=pick(r, 0.125, 1, 5), smax=pick(r, 6, 12, 30),
                             per=k % 5 == 0, cut=k % 4 == 0, calm=pick(r, 0, 0.5), outf=int(pick(r, 1, 1, 2, 5)), nrec=7 if vf.THOROUGH else 5,
                             dts=(600, 900, 1800, 3600), kvfs=(0, 3, 10)))
    cases += [pits(r, f"pits{k}", both_dirs(k), ["bounds"], model=False) for k in range(60 if vf.THOROUGH else 16)]
    byid, lines = track.check_runs(chk, cases)
    witness(chk, lines)


def c35(chk):
    chk.assumptions += ["storages positive; judged step by step inside the domain"]
    mc(chk, "limits", ["LimitsLast"], thorough=dict(FluxVals="FX3", StorVals="SV3", SurfVals="PV3", Starts="{0,3,8}"))
    mc(chk, "limits ring", ["LimitsLast"], Per="TRUE", N=4, StorVals="SV1", thorough=dict(StorVals="SV2"))
    r = rng(35)
    cases = []
    for k in range(200 if vf.THOROUGH else 56):
        cases.append(general(r, f"limits{k}", both_dirs(k), ["limits"], model=False, flux=pick(r, 0.3, 1, 4, 12), surf=pick(r, 0.5, 4, 15), smin=pick(r, 0.25, 1, 4), smax=pick(r, 6, 12, 24),
                             per=k % 5 == 0, cut=k % 4 == 1, calm=pick(r, 0, 0.4), nrec=7 if vf.THOROUGH else 5, dts=(900, 1200, 1800, 3600), kvfs=(0, 1, 3, 8)))
    cases += [pits(r, f"pits{k}", both_dirs(k), ["limits"], model=False) for k in range(60 if vf.THOROUGH else 20)]
    # columns that lose moisture in one layer while the other gains it
    for k in range(40 if vf.THOROUGH else 12):
        g = some_grid(r, m=5, n=6)
        recs = track.forcing(r, 5, 6, 4, flux=pick(r, 0.3, 1.0) * fluxscale(g), smin=8, smax=12, surf=pick(r, 1, 4))
        for i, q in enumerate(recs):
            x = np.rint(np.linspace(3, 17, 4)[i] * 64) * (ONE // 64)
            up = k // 2 % 2
            q["su"], q["sl"] = np.full((5, 6), x if up else 20 * ONE - x), np.full((5, 6), 20 * ONE - x if up else x)
        cases.append(track.mk_case(f"swap{k}", g, recs, dir=both_dirs(k), dt=int(pick(r, 1200, 1800, 3600)), kvf=float(pick(r, 0, 1, 5)), masks=[dict(t=0, w=np.full((5, 6), ONE))], check=["limits"], model=False))
    byid, lines = track.check_runs(chk, cases)
    witness(chk, lines)


STEP = ["state", "tracked", "losses", "gains", "tagged"]


def c03(chk):
    mc(chk, "transport", ["BalanceCloses", "Bounded"], quick=dict(Starts="{3}"))
    r = rng(3)
    cases = []
    for k in range(160 if vf.THOROUGH else 44):
        cases.append(general(r, f"step{k}", both_dirs(k), STEP, flux=pick(r, 0.1, 0.4, 1.0), surf=pick(r, 0.3, 1.5, 4), smin=3, smax=18,
                             per=k % 6 == 5, cut=k % 4 == 1, smooth=k % 2 == 0, nrec=4, dts=(1200, 1800, 3600)))
    # pure advection of a tagged blob for each of the eight sign combinations of the four fluxes
    for k in range(16):
        g = some_grid(r, m=5, n=5)
        recs = track.forcing(r, 5, 5, 3, flux=0.0, smin=8, smax=12, surf=0.5, smooth=True)
        sg = [1 if (k >> b) & 1 else -1 for b in range(4)]
        for q in recs:
            for v, s in zip(track.LEVELVARS, sg):
                q[v] = np.rint(s * r.uniform(0.2, 0.8, (5, 5)) * fluxscale(g) * ONE)
        cases.append(track.mk_case(f"blob{k}", g, recs, dir=both_dirs(k // 2), dt=1800, kvf=0, masks=[dict(t=0, w=centre(5, 5))], bbox=None, check=STEP))
    cases += [pits(r, f"pits{k}", both_dirs(k), STEP) for k in range(40 if vf.THOROUGH else 12)]
    byid, lines = track.check_runs(chk, cases)
    witness(chk, lines)


def centre(m, n):
    w = np.zeros((m, n), dtype="int64")
    w[m // 2, n // 2] = ONE
    return w


def c04(chk):
    mc(chk, "cap", ["Capped"], quick=dict(Starts="{3}"), thorough=dict(FluxVals="FX3", StorVals="SV3"))
    r = rng(4)
    cases = []
    for k in range(140 if vf.THOROUGH else 40):
        cases.append(general(r, f"cap{k}", both_dirs(k), ["state", "losses", "gains"], flux=pick(r, 2.0, 5.0, 12.0), surf=pick(r, 0.5, 2), smin=2, smax=14,
                             calm=pick(r, 0, 0.2), per=k % 7 == 6, cut=k % 5 == 1, nrec=3, dts=(1800, 3600)))
    # fluxes right around the cap: uniform wind and storage, one component dominating
    for k in range(12):
        g = some_grid(r, m=4, n=4)
        recs = track.forcing(r, 4, 4, 3, flux=0.0, smin=8, smax=8.02, surf=1)
        f = (0.8 + 0.05 * k) * 4 * fluxscale(g)
        for q in recs:
            q["xu"][:] = np.rint(f * ONE); q["yu"][:] = np.rint(pick(r, 0.02, 1, -1) * f * ONE)
            q["xl"][:] = np.rint(-f * ONE); q["yl"][:] = np.rint(pick(r, 0.0, 1, -1) * f * ONE)
        cases.append(track.mk_case(f"near{k}", g, recs, dir=both_dirs(k), dt=3600, kvf=0, masks=[dict(t=0, w=np.full((4, 4), ONE))], check=["state", "losses", "gains"]))
    byid, lines = track.check_runs(chk, cases)
    witness(chk, lines)


def c05(chk):
    mc(chk, "closure", ["ClosureShares"], quick=dict(Starts="{3}"), thorough=dict(FluxVals="FX3", StorVals="SV3", SurfVals="PV3"))
    r = rng(5)
    cases = []
    for k in range(120 if vf.THOROUGH else 36):
        cases.append(general(r, f"vert{k}", both_dirs(k), ["state"], flux=pick(r, 0.0, 0.1, 0.5), surf=pick(r, 0.5, 3), smin=4, smax=16, smooth=k % 2 == 0,
                             nrec=3, dts=(1800, 3600), kvfs=(0, 0.5, 1, 3, 9), both=True, per=k % 6 == 5))
    byid, lines = track.check_runs(chk, cases)
    witness(chk, lines)
    deviating = [i for i, vs in byid.items() if any(v["variant"] == "asbuilt" and v["ok"] for v in vs)
                 and not any(v["variant"] == "documented" and v["ok"] for v in vs)]
    chk.add(runs_following_documented_closure=sum(any(v["variant"] == "documented" and v["ok"] for v in vs) for vs in byid.values()),
            runs_ignoring_surface_fluxes_in_closure=len(deviating))
    if deviating:
        chk.finding("closure-surface-terms", f"the vertical flux ignores rain and evaporation (runs {deviating[:3]})")


def c13(chk):
    r = rng(13)
    cases = []
    sp = [(250, 1000), (1000, 250), (2000, 500), (500, 2000), (1500, 1500), (3000, 1000), (1000, 3000), (12000, 1000), (10000, 3000)]
    for k in range(90 if vf.THOROUGH else 42):
        dlat, dlon = sp[k % len(sp)]
        m, n = 4, int(pick(r, 4, 5))
        kind = k % 6
        if kind in (1, 2):   # tiny polar cells are beyond the precision of the specification
            dlat, dlon = pick(r, (3000, 1000), (2000, 3000), (3000, 3000), (2500, 1000))
        lat0 = int(r.integers(-50, 60)) * 1000
        if dlat > 3000:                       # coarse rows: the curvature of a cell matters
            lat0 = int(r.integers(-20, 60)) * 1000
        if kind == 1:
            lat0 = 90000                      # north pole in the first row
        elif kind == 2:
            lat0 = -90000 + (m - 1) * dlat    # south pole in the last row
        elif kind == 3:
            lat0 = dlat * (m // 2)            # across the equator
        lon0 = 180000 - dlon * int(pick(r, 1, 1, 2)) if kind in (4, 5) else int(r.integers(-180, 170)) * 1000
        if kind == 1 and k % 12 == 1:
            lat0 = 90000 - dlat // 2          # edge of the row at the pole
        g = track.grid(m, n, lat0=lat0, dlat=dlat, lon0=lon0, dlon=dlon)
        recs = track.forcing(r, m, n, 3, flux=pick(r, 0.5, 1.5) * fluxscale(g), smin=6, smax=12, surf=1.5 if dlat <= 3000 else 6, smooth=True)
        if k % 2 or dlat > 3000:              # the longer side of a cell carries as much as the shorter
            for q in recs:
                for v, d in (("xu", dlon), ("xl", dlon), ("yu", dlat), ("yl", dlat)):
                    q[v] = np.rint(q[v] * min(d / min(dlat, dlon), 4))
        w = r.choice([0, ONE], (m, n), p=[0.4, 0.6])
        cases.append(track.mk_case(f"geo{k}", g, recs, dir=both_dirs(k), dt=int(pick(r, 1800, 3600)), kvf=float(pick(r, 0, 1)), masks=[dict(t=0, w=w)],
                                   check=["state", "losses", "tracked", "gains"], tol=400 if kind in (1, 2) else 80 if dlat <= 3000 else 40))
        if k % 3 == 0 and kind not in (1, 2):
            with_domain(r, cases[-1])
    byid, lines = track.check_runs(chk, cases)
    witness(chk, lines)
    r2 = vf.model_check("GeometryMC", vf.cfg(constants={}, invariants=["AreaSums", "Symmetric", "PolesCapped", "WidthBelowArea"]))
    chk.model(r2, "GeometryMC")
