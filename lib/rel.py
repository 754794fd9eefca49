"""Relations between runs, judged by RelTrace.tla."""
import vf, track
from track import lol, ONE

FIELDS = ("u", "l", "tag", "rl", "ru", "loss", "gain")


def outs(os):
    return [dict(t=o["t"], dig=o.get("dig", 0), **{k: lol(o[k]) for k in FIELDS}) for o in os]


def line(id, c, A, B, *, t0=None, t1=None, outf=None, group=False, frm=-1, shift=0, flipx=False, flipy=False, num=1, den=1, exact=False, tol=0, faults=(), blocked=(), cuts=(), mayfail=False, code=0):
    return dict(id=id, dir=c["dir"], m=c["m"], n=c["n"], dt=c["dt"], t0=c["t0"] if t0 is None else t0, t1=c["t1"] if t1 is None else t1,
                outf=outf or c["outf"], group=group, **{"from": frm}, tin=c["tin"], faults=list(faults), blocked=list(blocked), cuts=list(cuts), mayfail=mayfail, code=code, shift=shift, flipx=flipx, flipy=flipy, num=num, den=den, exact=exact, tol=tol,
                A=outs(A), B=outs(B))


def judge(chk, lines, brief=None):
    verdict, st, tr = vf.validate("RelTrace", lines, weight=lambda q: (len(q["A"]) + 1) * q["m"] * q["n"])
    chk.add(states=st, transitions=tr, traces_validated_against_impl=2 * len(lines),
            outputs_matched=sum(v["matched"] for v in verdict))
    got = {v["run"]: v for v in verdict}
    for q in lines:
        v = got.get(q["id"])
        if v is None:
            raise vf.Machinery(f"no verdict for {q['id']}")
        if not v["ok"]:
            b = v["bad"][0]
            chk.violation(f"{q['id']} ({q['dir']}): {b['clause']} at t={b['t']}, cell ({b['row']},{b['col']}): "
                          f"expected {b['model'] / ONE:.6f} ({b['model']}), observed {b['observed'] / ONE:.6f} ({b['observed']})",
                          dict(bad=v["bad"], case=(brief or {}).get(q["id"])))
    return got


def jobs(chk, fn, cases, timeout=200):
    """fn(case) -> dict(lines=[...], errors=[...]); collects the lines, reports the errors as violations."""
    res = vf.fork_map(fn, cases, timeout=timeout)
    res = track.rerun_odd(fn, cases, res, timeout)
    lines, out = [], []
    for c, r in zip(cases, res):
        if r[0] == "exc":
            raise vf.Machinery("recording failed:\n" + r[1])
        if r[0] != "ok":
            chk.violation(f"{c['id']} ended abnormally: {r}", track.brief(c) if "recs" in c else None)
            continue
        for e in r[1].get("errors", []):
            chk.violation(f"{c['id']}: {e}", track.brief(c) if "recs" in c else None)
        lines += r[1].get("lines", [])
        out.append(r[1])
    return lines, out
