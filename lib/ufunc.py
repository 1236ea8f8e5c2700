"""C29: the functions of the NumPy module."""
import json, os, sysconfig
import vf
from vf import Violation, CheckError


def c29(ctx):
    ctx.model("UfuncMC")
    for v, inv in (("packed", "Inside"), ("first", "Inside"), ("same", "Inside"), ("output", "Inside"), ("swapped", "Results")):
        ctx.must_fail("UfuncMC", v, inv)
    pj = ctx.path("plan.json")
    ctx.tlc("UfuncPlan", env={"PLAN": pj, "TIER": ctx.tier}, workers=1)
    pl = json.load(open(pj))
    gen, mod = ctx.path("gen"), ctx.path("mod")
    os.makedirs(gen)
    os.makedirs(mod)
    p = ctx.run(["python3", "-B", os.path.join(vf.REPO, "src", "numpy_wrapper_generator.py")], cwd=gen, ok=None)
    if p.returncode:
        return [Violation("the generator of the NumPy module fails: " + (p.stderr.strip().split("\n") or [""])[-1])]
    so = os.path.join(mod, "vdtnpfun" + sysconfig.get_config_var("EXT_SUFFIX"))
    p = ctx.run(["gcc", "-std=gnu11", "-O2", "-w", "-shared", "-fPIC", "-I" + gen, "-I" + os.path.join(vf.HARNESS, "np"),
                 "-I" + sysconfig.get_paths()["include"], os.path.join(vf.REPO, "src", "vdtNumpyWrapper.c"), os.path.join(vf.HARNESS, "npfat.c"), "-o", so], ok=None)
    if p.returncode:
        raise CheckError("the NumPy module does not compile with the stand-ins:\n" + p.stderr[:2000])
    tr = ctx.path("np.ndjson")
    p = ctx.run(["python3", "-B", os.path.join(vf.HARNESS, "npcalls.py"), mod, pj, tr], ok=None, timeout=300)
    if p.returncode:
        if "driver" in p.stderr or "no memory" in p.stderr or os.path.exists(tr):
            raise CheckError("the driver of the NumPy module failed:\n" + p.stderr[-2000:])
        return [Violation("the NumPy module cannot be loaded: " + (p.stderr.strip().split("\n") or [""])[-1])]
    traces = [json.loads(l) for l in open(tr)]
    if any(t["kind"] == "giant" and not t["obs"] for t in traces):
        ctx.assumptions.append("some arrays of more than 2^32 elements could not be mapped or were too slow")
    r = ctx.tlc("UfuncTrace", env={"TRACE": tr})
    ctx.cov["traces_validated_against_impl"] += len(traces)
    ctx.cov["calls"] = sum(len(t["obs"]) for t in traces[1:])
    for t in (traces[0], traces[1], traces[-1]):
        ctx.sample({"kind": t["kind"], "name": t["name"], "fmt": t["fmt"], "obs": t["obs"][len(t["obs"]) // 2:][:1]})
    if r.status == "ok":
        if r.distinct != sum(len(t["obs"]) + 1 for t in traces) or len(traces) != 1 + 2 * len(pl["functions"]) + 2 * len(pl["long"]):
            raise CheckError("trace not consumed")
        return []
    st = r.last
    t = traces[st["t"] - 1]
    o = t["obs"][st["i"] - 2]
    return [Violation("%s of the NumPy module (%s %s): %s: %s" % (t["kind"], t["name"], t["fmt"], st["verdict"], json.dumps(o)[:400]), {"state": st, "obs": o}, tr)]
