"""C11: purity."""
import json, os
import vf
from vf import Violation, CheckError, hexlimbs


def c11(ctx):
    ctx.model("PureMC")
    ctx.must_fail("PureMC", "shared", "Pure")
    ctx.must_fail("PureMC", "memo", "Pure")
    ctx.must_fail("PureMC", "control", "EnvKept")
    sig = ctx.signatures()
    ctx.compile([os.path.join(vf.HARNESS, "pure.cpp"), sig], "pure")
    tr = ctx.path("pure.ndjson")
    ctx.run([ctx.path("pure"), tr, "20000" if ctx.quick else "1000000"])
    lines = open(tr).read().splitlines()
    names = json.loads(lines[0])["names"]
    evs = [json.loads(l) for l in lines[1:]]
    r = ctx.tlc("PureTrace", env={"TRACE": tr}, workers=1)
    ctx.cov["traces_validated_against_impl"] += 1
    ctx.cov["observations"] = len(evs)
    ctx.cov["calls_compared"] = len(names)
    ctx.cov["histories"] = {h: sum(e["h"] == h for e in evs) for h in ("fresh", "pair", "walk", "thread", "flags", "long", "env")}
    ctx.sample({"call": names[evs[-1]["key"] - 1], "event": evs[-1]})
    ctx.sample({"call": names[evs[900]["key"] - 1], "event": evs[900]})
    if r.status == "ok":
        if r.distinct != len(evs) + 1:
            raise CheckError("trace not consumed: %d of %d" % (r.distinct, len(evs) + 1))
        return []
    st = r.last
    e = evs[st["i"] - 2]
    prev = names[e["prev"] - 1] if e["prev"] > 0 else "-"
    return [Violation("%s: %s (history %s, after %s): got %s, control words %s -> %s" % (names[e["key"] - 1], st["verdict"], e["h"], prev, hexlimbs(e["y"]), e["e0"], e["e1"]), e, tr)]
