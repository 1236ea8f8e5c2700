"""C01-C06, C12: sweeps over the argument space, judged cell by cell by TLC."""
import json, os
import vf, numdict
from vf import Violation, CheckError, hexlimbs, show


def plan(ctx, mode, fns):
    """The sweep plan printed from the specification."""
    pj = ctx.path("plan-%s-%s.json" % (mode, fns))
    ctx.tlc("Plan", env={"MODE": mode, "TIER": ctx.tier, "FNS": fns, "PLAN": pj}, workers=1)
    rows = [r for f in json.load(open(pj)) for r in f]
    pt = pj[:-5] + ".txt"
    with open(pt, "w") as o:
        for r in rows:
            o.write("%s %d %s %s %d %d %d %d %d\n" % (r["fn"], r["g"], hexlimbs(r["lo"]), hexlimbs(r["hi"]), r["floor"], r["ceil"], r["bpc"], r["cpb"], r["n"]))
    return pt


def group(src, dst):
    """One line per function: the shape the trace specification reads."""
    by, n, pts, d = {}, 0, 0, 0
    for l in open(src):
        c = json.loads(l)
        by.setdefault(c.pop("fn"), []).append(c)
        n += 1
        pts += c["n"]
        d += c.pop("d")
    with open(dst, "w") as o:
        for fn in by:
            o.write(json.dumps({"fn": fn, "cells": by[fn]}, separators=(",", ":")) + "\n")
    return by, n, pts, d


def build(ctx, mode, flags=None, out="sweep", **kw):
    ctx.compile([os.path.join(vf.HARNESS, "sweep.cpp")], out, flags=(flags or vf.BASE_FLAGS) + ["-DSWEEP_MODE=" + mode], **kw)
    d = ctx.path("dict.txt")
    if not os.path.exists(d):
        numdict.build(vf.REPO, d)


def describe(mode, fn, c, verdict):
    def o(k):
        return {a: show(b) if isinstance(b, list) else b for a, b in k.items() if a in "xyz"}
    w = {"acc": lambda: o(c), "special": lambda: [o(k) for k in c["obs"]], "parity": lambda: [o(c["odd"]), o(c["even"])],
         "range": lambda: [o(k) for k in c["obs"]],
         "joint": lambda: [{a: show(b) for a, b in k.items()} for k in c["obs"]],
         "fpe": lambda: {"x": show(c["x"]), "flags": c["fs"], "xv": show(c["xv"]), "vflags": c["fv"]}}[mode]()
    return "%s: %s in cell [%s, %s]: %s" % (fn, verdict, show(c["lo"]), show(c["hi"]), w)


def judge(ctx, mode, raw, tag=""):
    tr = raw + ".grouped"
    by, n, pts, d = group(raw, tr)
    r = ctx.tlc("SweepTrace", env={"MODE": mode, "TRACE": tr}, timeout=800)
    ctx.cov["traces_validated_against_impl"] += len(by)
    ctx.cov["evaluations"] += pts
    ctx.cov["distinct_nontrivial"] = ctx.cov.get("distinct_nontrivial", 0) + d
    ctx.cov["rule"] = ("one random argument per stratum of every cell (or every argument of the cell), plus the breakpoints found in the "
                       "headers; distinct_nontrivial counts the strata and enumerated arguments only, all inside the claimed interval")
    ctx.cov["cells"] = ctx.cov.get("cells", 0) + n
    ctx.cov["cells_enumerated_completely"] = ctx.cov.get("cells_enumerated_completely", 0) + sum(c["full"] for f in by.values() for c in f)
    for fn in sorted(by)[:2]:
        ctx.sample({"fn": fn + tag, "cell": by[fn][len(by[fn]) // 2]})
    if r.status == "ok":
        want = sum(len(v) + 1 for v in by.values())
        if r.distinct != want:
            raise CheckError("trace specification visited %d of %d states" % (r.distinct, want))
        return []
    st = r.last
    if not st:
        raise CheckError("no counterexample state from TLC:\n" + r.out[-2000:])
    if r.invariant == "Complete":
        raise CheckError("the sweep stopped before the end of its plan: %r" % (st,))
    fn = list(by)[st["f"] - 1]
    c = by[fn][st["i"] - 2]
    return [Violation(describe(mode, fn, c, st["verdict"]) + tag, {"state": st, "cell": c}, tr)]


def sweep(ctx, mode, fns, exe="sweep", tag=""):
    if not os.path.exists(ctx.path(exe)):
        build(ctx, mode, out=exe)
    p = plan(ctx, mode, fns)
    raw = ctx.path("trace-%s-%s%s" % (mode, fns, tag.replace(" ", "_")))
    ctx.run([ctx.path(exe), p, ctx.path("dict.txt"), raw])
    return judge(ctx, mode, raw, tag)


def c01(ctx):
    ctx.model("LimbsMC")
    return sweep(ctx, "acc", "AccD")


def c02(ctx):
    return sweep(ctx, "acc", "AccF")


def c03(ctx):
    return sweep(ctx, "acc", "Rec")


def c04(ctx):
    return sweep(ctx, "special", "Special")


def c05(ctx):
    return sweep(ctx, "parity", "Parity") + atan2(ctx, "parity")


def c06(ctx):
    return sweep(ctx, "range", "All") + atan2(ctx, "range")


def c12(ctx):
    return sweep(ctx, "fpe", "All") + atan2(ctx, "fpe")


def c07(ctx):
    ctx.model("OctantMC")
    ctx.must_fail("OctantMC", "once", "Scheme")
    ctx.compile([os.path.join(vf.HARNESS, "octant.cpp")], "octant")
    tr = ctx.path("octant.ndjson")
    ctx.run([ctx.path("octant"), "4" if ctx.quick else "16", tr])
    r = ctx.tlc("OctantTrace", env={"TRACE": tr})
    traces = [json.loads(l) for l in open(tr)]
    npts = sum(len(e["obs"]) for t in traces for e in t["octs"])
    ctx.cov["traces_validated_against_impl"] += len(traces)
    ctx.cov["octant_points"] = npts
    ctx.sample({"octant": traces[1]["octs"][1234], "fmt": traces[1]["fmt"]})
    vs = []
    if r.status != "ok":
        st = r.last
        t = traces[st["t"] - 1]
        ev = t["octs"][st["i"] - 2]
        vs.append(Violation("joint sine-cosine (%s): %s, octant %d: %s" % (t["fmt"], st["verdict"], ev["k"], [{a: show(b) for a, b in o.items()} for o in ev["obs"]]), st, tr))
    elif r.distinct != sum(len(t["octs"]) + 1 for t in traces):
        raise CheckError("octant trace not consumed")
    return vs + sweep(ctx, "joint", "Joint")


def atan2(ctx, mode, exe="atan2", flags=None, tag="", **kw):
    """Sweep of the two-argument arctangent, judged by Atan2Trace."""
    pj, pt, rt = ctx.path("a2plan.json"), ctx.path("a2plan.txt"), ctx.path("ratios.txt")
    ctx.tlc("Atan2Plan", env={"MODE": mode, "PLAN": pj}, workers=1)
    plan = json.load(open(pj))
    with open(pt, "w") as o:
        for f in "df":
            for c in plan[f]:
                o.write("%s %s %d %d\n" % (f, c["k"], c["lo"], c["hi"]))
    rs = set([1.0, 0.41421356237309503, 2.414213562373095])
    for v in numdict.literals(vf.REPO):
        if 1e-20 < v < 1e20:
            rs |= {v, 1 / v}
    open(rt, "w").write("\n".join(repr(v) for v in sorted(rs)) + "\n")
    if not os.path.exists(ctx.path(exe)):
        ctx.compile([os.path.join(vf.HARNESS, "atan2.cpp")], exe, flags=flags, **kw)
    tr = ctx.path("atan2-%s.ndjson" % mode)
    ctx.run([ctx.path(exe), mode, pt, rt, ("160000" if mode == "acc" else "40000") if ctx.quick else "1000000", tr])
    traces = [json.loads(l) for l in open(tr)]
    r = ctx.tlc("Atan2Trace", env={"MODE": mode, "TRACE": tr})
    ctx.cov["traces_validated_against_impl"] += len(traces)
    pts = sum(c["n"] for t in traces for c in t["cells"])
    ctx.cov["evaluations"] += pts
    ctx.cov["atan2_cells"] = sum(len(t["cells"]) for t in traces)
    ctx.sample({"fmt": traces[2]["fmt"], "cell": traces[2]["cells"][40]}, 8)
    if r.status == "ok":
        if r.distinct != sum(len(t["cells"]) + 1 for t in traces):
            raise CheckError("atan2 trace not consumed")
        return []
    st = r.last
    if r.invariant == "Complete" or not st:
        raise CheckError("atan2 sweep incomplete\n" + r.out[-2000:])
    t = traces[st["t"] - 1]
    c = t["cells"][st["i"] - 2]
    return [Violation("atan2 (%s)%s: %s: %s" % (t["fmt"], tag, st["verdict"], [{a: show(b) if isinstance(b, list) else b for a, b in o.items() if a != "ref"} for o in c["obs"]]), {"state": st, "cell": c}, tr)]


def c08(ctx):
    ctx.model("Atan2MC")
    ctx.must_fail("Atan2MC", "noswap", "Ordered")
    ctx.must_fail("Atan2MC", "xfirst", "Ordered")
    vs = atan2(ctx, "acc")
    ctx.cov["distinct_nontrivial"] = ctx.cov["atan2_cells"]
    ctx.cov["rule"] = ("random pairs in every cell (quadrant x difference of exponents), a third of them at ratios the code compares against, plus the axes and the origin; "
                       "distinct_nontrivial counts the different cells, each represented by its worst pair")
    return vs
