"""C09, C10: array functions."""
import json, os
import vf
from vf import Violation, CheckError, show


def plan(ctx):
    pj = ctx.path("arrays.json")
    if not os.path.exists(pj):
        ctx.tlc("ArraysPlan", env={"TIER": ctx.tier, "PLAN": pj}, workers=1)
    return json.load(open(pj))


def build(ctx, out="arrays", flags=None):
    sig = ctx.signatures()
    fl = flags or vf.BASE_FLAGS
    ctx.compile(["-c", "-fPIC", sig], out + "_sig.o", flags=fl)
    ctx.compile([os.path.join(vf.HARNESS, "arrays.cpp"), ctx.path(out + "_sig.o")], out, flags=fl)


def drive(ctx, mode, lines, exe="arrays", only=()):
    p = ctx.path("calls-%s.txt" % mode)
    open(p, "w").write("\n".join(lines) + "\n")
    d = ctx.path("out-%s" % mode)
    os.makedirs(d, exist_ok=True)
    ctx.run([ctx.path(exe), mode, p, d] + list(only), timeout=850, gb=0)
    return d


def collect(ctx, pl, d, mode):
    tr = ctx.path("arrays-%s.ndjson" % mode)
    n = 0
    with open(tr, "w") as o:
        for k, e in enumerate(pl["names"]):
            f = os.path.join(d, "%d.%s" % (k, e["name"]))
            if not os.path.exists(f):
                raise CheckError("no trace of " + e["name"])
            evs = []
            for l in open(f):
                try:
                    evs.append(json.loads(l))
                except ValueError:
                    break
            want = pl["calls"] if mode == "equal" else pl["foot"]
            bad = evs and (evs[-1]["fault"] != "none" or (mode == "equal" and evs[-1]["y"] != evs[-1]["s"]) or (mode == "foot" and (evs[-1]["inmod"] or evs[-1]["before"] or evs[-1]["after"] or evs[-1]["unwritten"])))
            if len(evs) < len(want) and not bad:
                # the process died in the next planned call
                w = dict(want[len(evs)])
                w.update({"fault": "the death of the process"})
                if mode == "equal":
                    w.update({"i": -1, "x": [0], "y": [0], "s": [0]})
                else:
                    w.update({"inmod": 0, "before": 0, "after": 0, "unwritten": 0})
                evs.append(w)
            n += len(evs)
            o.write(json.dumps({"name": e["name"], "fmt": e["fmt"], "calls": evs}, separators=(",", ":")) + "\n")
    return tr, n


def judge(ctx, pl, tr, n, mode):
    traces = [json.loads(l) for l in open(tr)]
    r = ctx.tlc("ArraysTrace", env={"MODE": mode, "TRACE": tr, "TIER": ctx.tier})
    ctx.cov["traces_validated_against_impl"] += len(traces)
    ctx.cov["calls_" + mode] = n
    ctx.sample({"name": traces[17]["name"], "call": traces[17]["calls"][33]})
    ctx.sample({"name": traces[40]["name"], "call": traces[40]["calls"][-1]})
    if r.status == "ok":
        return []
    st = r.last
    if not st or r.invariant in ("Complete", "AllFunctions"):
        raise CheckError("array trace incomplete: %s\n%s" % (r.invariant, r.out[-1500:]))
    t = traces[st["t"] - 1]
    ev = t["calls"][st["i"] - 2]
    s = "%s: %s (length %s" % (t["name"], st["verdict"], ev["n"])
    if mode == "equal" and ev["fault"] == "none":
        s += ", index %d: argument %s, array %s, scalar %s" % (ev["i"], show(ev["x"]), show(ev["y"]), show(ev["s"]))
    elif mode == "foot":
        s += ", placement %s" % ev["place"]
    return [Violation(s + ")", {"state": st, "event": ev}, tr)]


def c09(ctx):
    ctx.model("ArraysMC")
    ctx.must_fail("ArraysMC", "shift", "Progress")
    pl = plan(ctx)
    build(ctx)
    d = drive(ctx, "equal", ["%d %s" % (c["n"], ",".join("%d:%d" % tuple(o) for o in c["offs"])) for c in pl["calls"]])
    tr, n = collect(ctx, pl, d, "equal")
    ctx.cov["evaluations"] = sum(c["n"] * len(c["offs"]) for c in pl["calls"]) * len(pl["names"])
    vs = judge(ctx, pl, tr, n, "equal")
    return vs or giant(ctx, pl, "giant")


def giant(ctx, pl, mode):
    """One call beyond 2^31 elements per function (quick tier: the cheap ones), on memory mapped over and over."""
    n = pl["giant"][0] * 65536 + pl["giant"][1]
    names = [e["name"] for e in pl["giantNames"]]
    d = drive(ctx, "giant", ["%d 0:0" % n], only=names)
    tr, done = ctx.path("giant.ndjson"), 0
    with open(tr, "w") as o:
        for k, e in enumerate(pl["names"]):
            if e["name"] not in names:
                continue
            t = open(os.path.join(d, "%d.%s" % (k, e["name"]))).read()
            if t.startswith("skip"):
                ctx.assumptions.append("lengths beyond 2^31 not driven: the address space was not available")
                return []
            ev = json.loads(t) if t.strip() else {"n": pl["giant"], "i": [0, 0], "x": [0], "y": [0], "s": [0], "inmod": 0, "before": 0, "after": 0, "unwritten": 0, "fault": "the death of the process"}
            o.write(json.dumps({"name": e["name"], "fmt": e["fmt"], "calls": [ev]}) + "\n")
            done += 1
    r = ctx.tlc("ArraysTrace", env={"MODE": mode, "TRACE": tr, "TIER": ctx.tier})
    ctx.cov["calls_beyond_2^31"] = done
    ctx.cov["traces_validated_against_impl"] += done
    if r.status == "ok":
        return []
    st = r.last
    t = json.loads(open(tr).read().split("\n")[st["t"] - 1])
    return [Violation("%s: %s (length %d)" % (t["name"], st["verdict"], n), t, tr)]


def c10(ctx):
    ctx.model("ArraysMC")
    ctx.must_fail("ArraysMC", "overrun", "Bounds")
    ctx.must_fail("ArraysMC", "notail", "Final")
    pl = plan(ctx)
    build(ctx)
    d = drive(ctx, "foot", ["%d %s" % (c["n"], c["place"]) for c in pl["foot"]])
    tr, n = collect(ctx, pl, d, "foot")
    return judge(ctx, pl, tr, n, "foot") or giant(ctx, pl, "giantfoot")
