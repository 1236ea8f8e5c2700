"""C23: bit-level helpers."""
import json, os, subprocess
import vf
from vf import Violation, CheckError, hexlimbs
from diag import must_fail

# the driver's operations, in its order, and calls that tell whether the tree has them
HELPERS = [
    ("BITS", "(void)dp2uint64(1.0); (void)sp2uint32(1.0f);"),
    ("BACK", "(void)uint642dp(1); (void)uint322sp(1);"),
    ("BITSO", "(void)fp2uint(1.0); (void)fp2uint(1.0f);"),
    ("BACKO", "(void)int2fp((uint64_t)1); (void)int2fp((uint32_t)1);"),
    ("SIGN", "(void)getSignMask(1.0); (void)getSignMask(1.0f);"),
    ("SPLIT", "double e; float f; (void)getMantExponent(1.0, e); (void)getMantExponentf(1.0f, f);"),
    ("FLOOR", "(void)fpfloor(1.0); (void)fpfloor(1.0f);"),
    ("AND", "(void)dpANDuint64(1.0, 1); (void)spANDuint32(1.0f, 1);"),
    ("OR", "(void)dpORuint64(1.0, 1); (void)spORuint32(1.0f, 1);"),
    ("XOR", "(void)dpXORuint64(1.0, 1); (void)spXORuint32(1.0f, 1);"),
]


def absent(ctx):
    """Internal helpers may be renamed or dissolved: what is not there is not claimed."""
    gone, mask = [], 0
    for k, (op, call) in enumerate(HELPERS):
        src = ctx.path("has-%s.cpp" % op)
        open(src, "w").write('#include "vdtcore_common.h"\nusing namespace vdt::details;\nvoid probe() { %s }\n' % call)
        q = subprocess.run(["g++"] + vf.BASE_FLAGS + vf.INCLUDES + ["-fsyntax-only", src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if q.returncode:
            gone.append(op)
            mask |= 1 << k
    if len(gone) == len(HELPERS):
        raise CheckError("vdtcore_common.h has none of the helpers or does not compile")
    if gone:
        ctx.assumptions.append("helpers not present in this tree: " + ", ".join(gone))
    return ["-DNO_" + op for op in gone] + ["-DLEFT_OUT=%d" % mask]


def c23(ctx):
    ctx.model("HelpersMC")
    must_fail(ctx, "HelpersMC", "HelpersMC_trunc.cfg", "IsFloor")
    pj = ctx.path("plan.json")
    ctx.tlc("HelpersPlan", env={"PLAN": pj}, workers=1)
    pl = json.load(open(pj))
    for k in ("d", "f", "md", "mf"):
        open(ctx.path(k + ".txt"), "w").write("".join(hexlimbs(p) + "\n" for p in pl[k]))
    flags = absent(ctx)
    ctx.compile([os.path.join(vf.HARNESS, "helpers.cpp")] + flags, "helpers")
    tr = ctx.path("helpers.ndjson")
    ctx.run([ctx.path("helpers")] + [ctx.path(k + ".txt") for k in ("d", "md", "f", "mf")] + [tr, "200000" if ctx.quick else "20000000"])
    traces = [json.loads(l) for l in open(tr)]
    r = ctx.tlc("HelpersTrace", env={"TRACE": tr})
    ctx.cov["traces_validated_against_impl"] += len(traces)
    ctx.cov["observations"] = sum(len(t["obs"]) for t in traces)
    ctx.sample({"fmt": traces[0]["fmt"], "obs": traces[0]["obs"][5]})
    ctx.sample({"fmt": traces[-1]["fmt"], "obs": traces[-1]["obs"][-3]})
    if r.status == "ok":
        if r.distinct != sum(len(t["obs"]) + 1 for t in traces):
            raise CheckError("trace not consumed")
        return []
    st = r.last
    t = traces[st["t"] - 1]
    o = t["obs"][st["i"] - 2]
    return [Violation("%s of 0x%s (%s), mask 0x%s: %s: 0x%s, %d" % (o["op"], hexlimbs(o["a"]), t["fmt"], hexlimbs(o["m"]), st["verdict"], hexlimbs(o["r"]), o["k"]), {"state": st, "obs": o}, tr)]
