"""C13: builds of the headers with different compilers and options."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import vf, sweeps, numdict
from vf import Violation, CheckError, show, hexlimbs

ISA = {"sse": [], "avx": ["-mavx"], "avx2": ["-mavx2"], "fma": ["-mavx2", "-mfma"]}
NEEDS = {"sse": set(), "avx": {"avx"}, "avx2": {"avx2"}, "fma": {"avx2", "fma"}}


def cpu():
    for l in open("/proc/cpuinfo"):
        if l.startswith("flags"):
            return set(l.split(":")[1].split())
    return set()


def flags(b):
    f = ["-std=c++11", "-" + b["opt"], "-msse", "-pthread", "-ffp-contract=" + ("fast" if b["contract"] else "off")] + ISA[b["isa"]]
    if b["cc"] == "clang":
        f.append("-D__extern_always_inline=inline")
    return f


def cxx(b):
    return "clang++" if b["cc"] == "clang" else "g++"


def name(b):
    return "%s -%s %s%s" % (b["cc"], b["opt"], b["isa"], " contracted" if b["contract"] else "")


def c13(ctx):
    ctx.model("BuildsMC")
    ctx.model("BuildsMC", cfg="BuildsMCFused.cfg")
    if ctx.tlc("BuildsMC", cfg="BuildsMCDiff.cfg").status != "violated":
        raise CheckError("the model of contraction never changes a bit")
    pj = ctx.path("builds.json")
    ctx.tlc("BuildsPlan", env={"TIER": ctx.tier, "PLAN": pj}, workers=1)
    have = cpu()
    bs, skipped = [], []
    for b in json.load(open(pj)):
        (bs if NEEDS[b["isa"]] <= have else skipped).append(b)
    for b in skipped:
        ctx.assumptions.append("not run, the processor lacks the instructions: " + name(b))
    strict = [b for b in bs if not b["contract"]]
    fused = [b for b in bs if b["contract"]]
    sig = ctx.signatures()

    def make(k):
        b = strict[k]
        ctx.compile(["-shared", "-fPIC", "-Wl,-Bsymbolic", os.path.join(vf.HARNESS, "buildk.cpp"), sig], "build%d.so" % k, flags=flags(b), cxx=cxx(b))

    ctx.compile([os.path.join(vf.HARNESS, "builds.cpp")], "builds", libs=["-ldl"])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(make, range(len(strict))))
    numdict.build(vf.REPO, ctx.path("dict.txt"))
    p = sweeps.plan(ctx, "range", "All")
    raw, tr = ctx.path("builds.raw"), ctx.path("builds.ndjson")
    ctx.run([ctx.path("builds"), p, ctx.path("dict.txt"), raw, "20000" if ctx.quick else "400000"] + [ctx.path("build%d.so" % k) for k in range(len(strict))])
    traces = []
    with open(tr, "w") as o:
        for l in open(raw):
            t = json.loads(l)
            t["builds"] = strict
            traces.append(t)
            o.write(json.dumps(t, separators=(",", ":")) + "\n")
    r = ctx.tlc("BuildsTrace", env={"TRACE": tr})
    ctx.cov["traces_validated_against_impl"] += len(traces)
    ctx.cov["builds"] = [name(b) for b in bs]
    ctx.cov["evaluations"] += sum(o["n"] for t in traces for o in t["obs"])
    ctx.sample({"fn": traces[3]["fn"], "obs": traces[3]["obs"][7]})
    ctx.sample({"fn": traces[30]["fn"], "obs": traces[30]["obs"][-1]})
    if r.status != "ok":
        st = r.last
        t = traces[st["t"] - 1]
        ob = t["obs"][st["i"] - 2]
        return [Violation("%s: %s: %s (%s) gives %s at %s, %s gives %s" % (t["fn"], st["verdict"], name(strict[ob["b"] - 1]), ob["way"], hexlimbs(ob["y"]), show(ob["x"]), name(strict[0]), hexlimbs(ob["y0"])), ob, None)]
    if r.distinct != sum(len(t["obs"]) + 1 for t in traces):
        raise CheckError("build trace not consumed")
    vs = []
    tier, ctx.tier, ctx.quick = ctx.tier, "quick", True      # the density of the quick sweep, for each of the fused builds
    for k, b in enumerate(fused):
        exe = "fused%d" % k
        sweeps.build(ctx, "acc", flags=flags(b), out=exe, cxx=cxx(b))
        for fns in ("AccD", "AccF", "Rec"):
            vs += sweeps.sweep(ctx, "acc", fns, exe=exe, tag=" " + name(b))
        vs += sweeps.atan2(ctx, "acc", exe="fuseda%d" % k, flags=flags(b), cxx=cxx(b), tag=" " + name(b))
        if vs:
            break
    ctx.tier, ctx.quick = tier, tier == "quick"
    return vs
