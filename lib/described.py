"""C25: headers and decimal columns of written files."""
import json, os, random, re
from concurrent.futures import ThreadPoolExecutor
import vf
from vf import Violation, CheckError, hexlimbs
from diag import died

STEPS = 3
NUMBER = re.compile(r"^([+-]?)(\d+)(?:\.(\d+))?$")


def printed(s):
    """A printed number: sign, all digits as one natural number in limbs, digits after the point."""
    m = NUMBER.match(s)
    if not m:
        return {"ok": 0, "s": 0, "d": [0], "p": 0}
    v = int(m.group(2) + (m.group(3) or ""))
    return {"ok": 1, "s": 1 if m.group(1) == "-" else 0, "d": vf.limbs(v, max(1, (v.bit_length() + 15) // 16)), "p": len(m.group(3) or "")}


def short(s):
    """A printed limit of a pool, as an ordinary integer and the digits after the point."""
    m = NUMBER.match(s)
    if not m or len(m.group(2) + (m.group(3) or "")) > 7:
        return {"ok": 0, "v": 0, "p": 0}
    v = int(m.group(2) + (m.group(3) or ""))
    return {"ok": 1, "v": -v if m.group(1) == "-" else v, "p": len(m.group(3) or "")}


def observed(path, kind, fmt):
    w = 16 if fmt == "d" else 8
    ls = open(path, encoding="latin-1").read().split("\n")
    o = {"head": ls[:5], "rows": [], "n": 0}
    if kind in ("pool1", "pool2"):
        o["min"], o["max"] = ([short(x) for x in (l.split("= ", 1) + [""])[1].split()] for l in (ls + [""] * 5)[2:4])
        o["n"] = len(" ".join(ls[5:]).split())
        return o
    data = [l.split() for l in ls[5 + (kind in ("comp1", "comp2")):] if l.strip()]
    o["n"] = len(data)
    if kind in ("comp1", "comp2"):
        dim = int(kind[-1])
        for f in data:
            x = [h[2:].zfill(w) for h in f[:dim]]
            if not all(len(h) == w and re.match("^[0-9a-f]+$", h) for h in x):
                return dict(o, n=-1)
            o["rows"].append({"x": [vf.limbs(int(h, 16), w // 4) for h in x], "dec": [printed(q) for q in f[dim + 3:]]})
    return o


def c25(ctx):
    ctx.model("DescribedMC")
    for v in ("whole", "short", "count"):
        ctx.must_fail("DescribedMC", v, "Described")
    pj = ctx.path("plan.json")
    ctx.tlc("DescribedPlan", env={"PLAN": pj}, workers=1)
    pl = json.load(open(pj))
    rnd = random.Random(ctx.seed)
    sig = ctx.signatures()
    ctx.run(["g++"] + vf.BASE_FLAGS + vf.INCLUDES + ["-c", sig, "-o", ctx.path("sig.o")])

    def build(b):
        ctx.compile([b[1]] + ([ctx.path("sig.o")] if b[0] != "described" else []), b[0])
    progs = os.path.join(vf.REPO, "progs")
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(build, [("described", os.path.join(vf.HARNESS, "described.cpp")), ("bench", os.path.join(progs, "vdtArithmBenchmark.cpp")),
                            ("compare", os.path.join(progs, "vdtArithmComparison.cpp"))]))
    cases, lines = [], []

    def add(c, args):
        d = ctx.path("case-%d" % len(cases))
        os.makedirs(d)
        cases.append((c, d))
        lines.append("%s %s %d %s %d %s" % (c["kind"], c["fmt"], STEPS, d, c["n"], args))
    for fmt in "df":
        for n in pl["counts"]:
            for a, b in pl["intervals"]:
                add({"kind": "pool1", "fmt": fmt, "n": n, "min": [a], "max": [b]}, "%s %s" % (a / 4, b / 4))
                for c, e in pl["intervals"][:2]:
                    # the constructor takes both lower limits first
                    add({"kind": "pool2", "fmt": fmt, "n": n, "min": [a, c], "max": [b, e]}, "%s %s %s %s" % (a / 4, c / 4, b / 4, e / 4))
        base = [hexlimbs(x) for x in pl[fmt]]
        w, bias, mb = (64, 1023, 52) if fmt == "d" else (32, 127, 23)
        for k, name in enumerate(pl["names"]):
            for kind in ("resp1", "resp2", "comp1", "comp2"):
                n = pl["counts"][k % len(pl["counts"])]
                # mostly numbers between 2^-30 and 2^14, as in the benchmark
                wide = [(rnd.getrandbits(1) << (w - 1)) | (rnd.randrange(bias - 30, bias + 15) << mb) | rnd.getrandbits(mb) for _ in range(100)]
                x = base if k < 2 else ["%0*x" % (w // 4, v) for v in wide[:n]]
                add({"kind": kind, "fmt": fmt, "n": len(x), "name": name}, "." + name.encode().hex() + ". " + " ".join(x))
    open(ctx.path("cases.txt"), "w").write("\n".join(lines) + "\n")
    p = ctx.run([ctx.path("described"), ctx.path("cases.txt")], ok=None)
    if died(p):
        return [Violation("the process died (signal %d) while writing files" % -p.returncode)]
    got = []
    for c, d in cases:
        fs = [os.path.join(d, "%d.txt" % k) for k in range(STEPS)]
        if not all(map(os.path.exists, fs)):
            return [Violation("a file was not written: %s" % c)]
        got.append({"kind": "chain", "c": c, "files": [observed(f, c["kind"], c["fmt"]) for f in fs], "from": fs})
    # names given by the comparison program
    for k, (ref, test) in enumerate(pl["nicks"]):
        d = ctx.path("titles-%d" % k)
        os.makedirs(d)
        for nick in {ref, test}:
            p = ctx.run([ctx.path("bench"), "-n=" + nick, "-s=2"], cwd=d, ok=None)
            if p.returncode < 0:
                return [Violation("vdtArithmBenchmark died (signal %d)" % -p.returncode)]
        # the reference is the fast function in every second run, the test in the others
        pre = ("Fast_", "") if k % 2 else ("", "Fast_")
        p = ctx.run([ctx.path("compare"), "-n=out", "-R=" + ",".join("%s__%s%s__response.txt" % (ref, pre[0], f) for f in pl["fns"]),
                     "-T=" + ",".join("%s__%s%s__response.txt" % (test, pre[1], f) for f in pl["fns"])], cwd=d, ok=None)
        if p.returncode < 0:
            return [Violation("vdtArithmComparison died (signal %d)" % -p.returncode)]
        for f in pl["fns"]:
            out = os.path.join(d, "comparison__out__%s.txt" % f)
            have = [os.path.exists(os.path.join(d, "%s__%s%s__response.txt" % (n, q, f))) for n, q in ((ref, pre[0]), (test, pre[1]))]
            if all(have):
                if not os.path.exists(out):
                    return [Violation("no comparison was written for %s" % f)]
                got.append({"kind": "title", "fn": f, "ref": ref, "test": test, "file": {"head": open(out, encoding="latin-1").read().split("\n")[:5]}})
    if sum(g["kind"] == "title" for g in got) < 4 * len(pl["nicks"]):
        raise CheckError("comparisons missing")
    tr = ctx.path("described.ndjson")
    open(tr, "w").write("".join(json.dumps(g, separators=(",", ":")) + "\n" for g in got))
    r = ctx.tlc("DescribedTrace", env={"TRACE": tr})
    ctx.cov["traces_validated_against_impl"] += len(got)
    ctx.cov["files"] = len(got) + (STEPS - 1) * len(cases)
    ctx.cov["decimals"] = sum(len(x["dec"]) for g in got if g["kind"] == "chain" for x in g["files"][0]["rows"])
    ctx.sample([g["files"][0]["rows"][-1] for g in got if g["kind"] == "chain" and g["c"]["kind"] == "comp2"][0])
    ctx.sample(got[-1])
    if r.status == "ok":
        want = sum(1 + (len(g["files"]) + len(g["files"][0]["rows"]) if g["kind"] == "chain" else 1) for g in got)
        if r.distinct != want:
            raise CheckError("trace not consumed: %d of %d" % (r.distinct, want))
        return []
    st = r.last
    g = got[st["t"] - 1]
    if g["kind"] == "title":
        return [Violation("comparison of %s from %s with %s: %s" % (g["fn"], g["ref"], g["test"], st["verdict"]), {"state": st, "file": g["file"]})]
    k = st["i"] - 1
    where = "as first written" if k == 1 else "written by an object read from file, step %d" % (k - 1) if k <= STEPS else "row %d" % (k - STEPS)
    what = {"pool": "pool", "resp": "response", "comp": "comparison"}[g["c"]["kind"][:4]]
    return [Violation("%s in %s dimension(s), %s precision, %d values, %s: %s" % (what, g["c"]["kind"][-1], "double" if g["c"]["fmt"] == "d" else "single", g["c"]["n"], where, st["verdict"]),
                      {"state": st, "object": g["c"], "head": [f["head"] for f in g["files"]], "row": g["files"][0]["rows"][k - STEPS - 1] if k > STEPS else None})]
