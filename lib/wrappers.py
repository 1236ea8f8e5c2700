"""C15: names that forward to the fast functions."""
import json, os
import vf
from vf import Violation, CheckError, show

GEN = """import sys, runpy, builtins
sys.dont_write_bytecode = True
builtins.file = open
runpy.run_path(%r, run_name='__main__')
"""


def c15(ctx):
    pj = ctx.path("rows.json")
    ctx.tlc("WrappersPlan", env={"PLAN": pj}, workers=1)
    rows = json.load(open(pj))
    open(ctx.path("rows.txt"), "w").write("".join("%(lib)s %(sym)s %(base)s %(fmt)s %(shape)s\n" % r for r in rows))
    sig = ctx.signatures(preload=True)
    p = ctx.compile(["-shared", "-fPIC", sig], "preload.so", ok=None)
    if p.returncode:
        return [Violation("the preload library does not compile: " + p.stderr[:400])]
    fat = ctx.path("fatgen")
    os.makedirs(fat)
    ctx.run(["python3", "-c", GEN % os.path.join(vf.REPO, "src", "numpy_wrapper_generator.py")], cwd=fat)
    p = ctx.compile(["-shared", "-fPIC", os.path.join(fat, "vdtFatLibWrapper.cc")], "fat.so",
                    incs=["-I" + os.path.join(vf.HARNESS, "fat"), "-I" + fat, "-I" + os.path.join(vf.REPO, "include")], ok=None)
    if p.returncode:
        return [Violation("the wrappers of the fat library do not compile: " + p.stderr[:400])]
    ctx.run(["gcc", "-O0", "-fno-builtin", os.path.join(vf.HARNESS, "victim.c"), "-o", ctx.path("victim"), "-lm"])
    ctx.compile([os.path.join(vf.HARNESS, "wrap.cpp")], "wrap", libs=["-ldl"])
    tr = ctx.path("wrap.ndjson")
    ctx.run([ctx.path("wrap"), ctx.path("rows.txt"), tr, ctx.path("preload.so"), ctx.path("fat.so"), ctx.path("victim")])
    traces = [json.loads(l) for l in open(tr)]
    r = ctx.tlc("WrappersTrace", env={"TRACE": tr})
    ctx.cov["traces_validated_against_impl"] += len(traces)
    ctx.cov["calls"] = sum(len(t["obs"]) for t in traces)
    ctx.cov["names"] = len(rows)
    for k in (3, 45, 80):
        ctx.sample({"row": rows[k], "call": traces[k]["obs"][:1]})
    if r.status == "ok":
        if r.distinct != sum(len(t["obs"]) + 2 for t in traces):
            raise CheckError("wrapper trace not consumed")
        return []
    st = r.last
    t = traces[st["t"] - 1]
    s = "%s (%s library, %s): %s" % (t["row"]["sym"], t["row"]["lib"], t["row"]["fmt"], st["verdict"])
    if st["i"] > 1:
        o = t["obs"][st["i"] - 2]
        s += ": arguments %s, got %s, fast function %s" % ([show(x) for x in o["a"]], [show(x) for x in o["y"]], [show(x) for x in o["w"]])
    return [Violation(s, {"state": st, "row": t["row"]}, tr)]
