"""C27: wrappers around the Vc library."""
import glob, json, os, shutil
from concurrent.futures import ThreadPoolExecutor
import vf
from vf import Violation, CheckError


def generated(ctx):
    """The wrappers, written by the generator of the working tree; it writes into the directory it is started in."""
    d = ctx.path("gen")
    os.makedirs(d)
    for f in glob.glob(os.path.join(vf.REPO, "src", "*.py")):
        shutil.copy(f, d)
    p = ctx.run(["python3", "vc_wrapper_generator.py"], cwd=d, ok=None)
    if p.returncode:
        return None, Violation("the generator of the Vc wrappers fails: " + (p.stderr.strip().split("\n") or [""])[-1])
    if not all(os.path.exists(os.path.join(d, "vdtdiag_vcWrapper" + e)) for e in (".h", ".cc")):
        raise CheckError("the generator of the Vc wrappers wrote no vdtdiag_vcWrapper.h and vdtdiag_vcWrapper.cc")
    return d, None


def c27(ctx):
    ctx.model("VcWrapMC")
    for v, inv in (("whole", "Inside"), ("stale", "Results"), ("front", "Results"), ("last", "Results")):
        ctx.must_fail("VcWrapMC", v, inv)
    pj = ctx.path("plan.json")
    ctx.tlc("VcWrapPlan", env={"PLAN": pj, "TIER": ctx.tier}, workers=1)
    pl = json.load(open(pj))
    gen, bad = generated(ctx)
    if bad:
        return [bad]
    inc = vf.INCLUDES + ["-I" + gen, "-I" + os.path.join(vf.HARNESS, "vc")]

    def calls(w):
        n = w["w"]
        ctx.compile([os.path.join(gen, "vdtdiag_vcWrapper.cc"), os.path.join(vf.HARNESS, "vcwrap.cpp"), "-DVC_LANES=%d" % n], "calls%d" % n, incs=inc)
        open(ctx.path("lengths%d.txt" % n), "w").write("\n".join(map(str, w["lengths"])) + "\n")
        ctx.run([ctx.path("calls%d" % n), ctx.path("lengths%d.txt" % n), ctx.path("calls%d.ndjson" % n)])
        return [json.loads(l) for l in open(ctx.path("calls%d.ndjson" % n))]
    with ThreadPoolExecutor(6) as ex:
        traces = [t for ts in ex.map(calls, pl["widths"]) for t in ts]
    there = {o["name"] for t in traces if t["kind"] == "names" for o in t["obs"] if o["there"]}
    if there == {e["name"] for e in pl["names"]}:
        def giant(n):
            f = ctx.path("giant-%s.ndjson" % n)
            p = ctx.run([ctx.path("calls4"), ctx.path("lengths4.txt"), f, "giant", n], ok=(0, 97), gb=0)
            if p.returncode:
                ctx.assumptions.append("arrays of more than 2^31 elements could not be mapped")
                return []
            return [json.loads(l) for l in open(f)]
        with ThreadPoolExecutor(4) as ex:
            traces += [t for ts in ex.map(giant, ("sinv", "sinfv", "identityv", "identityfv")) for t in ts]
        ctx.compile([os.path.join(gen, "vdtdiag_vcWrapper.cc"), os.path.join(vf.HARNESS, "vclist.cpp"), ctx.signatures(), "-DVC_LANES=4", "-D_VC_AVAILABLE_"], "list", incs=inc)
        ctx.run([ctx.path("list"), ctx.path("list.ndjson")])
        for t in (json.loads(l) for l in open(ctx.path("list.ndjson"))):
            # one observation per promised entry; entries of other names are not judged
            t["obs"] = [dict(([o for o in t["obs"] if o["name"] == e["name"]] or [{"name": e["name"], "pool": "", "inp": [], "out": []}])[0],
                             there=sum(o["name"] == e["name"] for o in t["obs"])) for e in pl["entries"] if e["fmt"] == t["fmt"]]
            traces.append(t)
    tr = ctx.path("vc.ndjson")
    open(tr, "w").write("".join(json.dumps(t) + "\n" for t in traces))
    r = ctx.tlc("VcWrapTrace", env={"TRACE": tr})
    ctx.cov["traces_validated_against_impl"] += len(traces)
    ctx.cov["observations"] = sum(len(t["obs"]) for t in traces)
    ctx.sample({k: v for k, v in traces[3].items() if k != "obs"})
    ctx.sample(traces[3]["obs"][min(5, len(traces[3]["obs"]) - 1)])
    ctx.sample(traces[-1]["obs"][0])
    if r.status == "ok":
        if r.distinct != sum(len(t["obs"]) + 1 for t in traces):
            raise CheckError("trace not consumed")
        return []
    st = r.last
    t = traces[st["t"] - 1]
    o = t["obs"][st["i"] - 2]
    return [Violation("%s of the Vc wrappers (%s %s, %s lanes): %s: %s" % (t["kind"], t.get("base", ""), t.get("fmt", ""), t.get("w", ""), st["verdict"], json.dumps(o)[:400]), {"state": st, "obs": o}, tr)]
