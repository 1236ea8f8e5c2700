"""C24: inputs and times of the programs."""
import json, os, re, struct
from concurrent.futures import ThreadPoolExecutor
import vf
from vf import Violation, CheckError
from diag import died

NONE = {"evals": 0, "calls": 0, "nmin": 0, "nmax": 0, "cost": 0, "lo": [], "hi": []}


def num(v):
    return (-1 if v["s"] else 1) * v["m"] * 2.0 ** v["e"]


def option(k, short, long, value):
    return ("--%s=%s" if k % 2 else "-%s=%s") % (long if k % 2 else short, value)


def timed(ctx, k, run):
    """One invocation of the timing program on the watched clock."""
    nick = "t%d" % k
    d = ctx.path("timed-%d" % k)
    os.makedirs(d)
    cmd = [ctx.path("perf"), option(k, "n", "nick", nick)]
    for o, long, v in (("s", "size", "%d" % run["size"]), ("r", "repetitions", "%d" % run["reps"]), ("m", "pool_min", repr(num(run["min"]))), ("M", "pool_max", repr(num(run["max"])))):
        if o in run["opts"]:
            cmd.append(option(k, o, long, v))
    if run["pattern"]:
        cmd.append("-p=" + run["pattern"])
    p = ctx.run(cmd, cwd=d, env={"WATCH": os.path.join(d, "watch")}, ok=None)
    if p.returncode < 0:
        return Violation("vdtPerfBenchmark died (signal %d): %s" % (-p.returncode, " ".join(cmd[1:])))
    f = os.path.join(d, nick + "__performance_benchmark.txt")
    if not os.path.exists(f) or not os.path.exists(os.path.join(d, "watch")):
        return Violation("vdtPerfBenchmark wrote no report: %s" % " ".join(cmd[1:]))
    seen = {e["name"]: e for e in map(json.loads, open(os.path.join(d, "watch")))}
    entries = []
    for m in re.finditer(r"^\s*Function\s+(\S+)\s*:\s*(\S+)", open(f).read(), re.M):
        try:
            mean = int(round(float(m.group(2)) * 100))
        except (ValueError, OverflowError):
            mean = -1
        entries.append({"name": m.group(1), "mean": mean if abs(mean) < 2**31 else -1, "o": seen.get(m.group(1), NONE)})
    return {"kind": "timed", "run": run, "entries": entries, "cmd": " ".join(cmd[1:])}


def benched(ctx, n):
    """One invocation of the arithmetic benchmark; the smallest and largest inputs in its files."""
    d = ctx.path("bench-%d" % n)
    os.makedirs(d)
    p = ctx.run([ctx.path("bench"), "-n=b", "-s=%d" % n], cwd=d, ok=None)
    if p.returncode < 0:
        return Violation("vdtArithmBenchmark died (signal %d), size %d" % (-p.returncode, n))
    entries = []
    for f in sorted(os.listdir(d)):
        m = re.match(r"b__(.*)__response\.txt$", f)
        if not m:
            continue
        name = m.group(1)
        prec = "f" if re.search(r"fv?$", name) else "d"
        dim = 2 if "2" in name else 1
        cols = [[] for _ in range(dim)]
        for l in open(os.path.join(d, f)).read().split("\n")[5:]:
            h = re.findall(r"0x([0-9a-fA-F]+)", l)
            for c, x in zip(cols, h):
                c.append(struct.unpack(">d" if prec == "d" else ">f", bytes.fromhex(x.zfill(16 if prec == "d" else 8)))[0])
        w = 4 if prec == "d" else 2

        def lim(x):
            return vf.limbs(int.from_bytes(struct.pack(">d" if prec == "d" else ">f", x), "big"), w)
        if not all(cols):
            continue
        bad = [[x for x in c if x != x] for c in cols]
        entries.append({"name": name, "o": {"n": len(cols[0]), "lo": [lim(b[0] if b else min(c)) for b, c in zip(bad, cols)], "hi": [lim(b[0] if b else max(c)) for b, c in zip(bad, cols)]}})
    return {"kind": "bench", "size": n, "entries": entries, "cmd": "size %d" % n}


def c24(ctx):
    ctx.model("InputsMC")
    for v in ("keep", "label", "warm", "sizes"):
        ctx.must_fail("InputsMC", v, "Times")
    pj = ctx.path("plan.json")
    ctx.tlc("InputsPlan", env={"PLAN": pj}, workers=1)
    pl = json.load(open(pj))
    sig = ctx.signatures()
    progs = os.path.join(vf.REPO, "progs")

    def build(b):
        out, srcs, flags = b
        ctx.compile(srcs, out, flags=vf.BASE_FLAGS + flags, libs=["-lrt"])
    watch = os.path.join(vf.HARNESS, "watch.cpp")
    ctx.compile(["-c", watch], "watch.o", flags=vf.BASE_FLAGS + ["-fno-builtin"])
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(build, [("perf", [os.path.join(progs, "vdtPerfBenchmark.cpp"), ctx.path("watch.o")], ["-rdynamic"]),
                            ("bench", [os.path.join(progs, "vdtArithmBenchmark.cpp"), sig], []),
                            ("tables", [os.path.join(vf.HARNESS, "tables.cpp"), sig], [])]))
    with ThreadPoolExecutor(8) as ex:
        a = [ex.submit(timed, ctx, k, r) for k, r in enumerate(pl["runs"])] + [ex.submit(benched, ctx, n) for n in pl["sizes"]]
        got = [x.result() for x in a]
    vs = [g for g in got if isinstance(g, Violation)]
    if vs:
        return vs
    for g in got:
        g["twin"] = 0
    for a, b in pl["twins"]:
        got[a - 1]["twin"] = b
    p = ctx.run([ctx.path("tables"), ctx.path("tables.ndjson")], ok=None)
    if died(p):
        return [Violation("the process died (signal %d) while filling the function tables" % -p.returncode)]
    got.append({"kind": "table", "entries": [json.loads(l) for l in open(ctx.path("tables.ndjson"))], "cmd": ""})
    tr = ctx.path("inputs.ndjson")
    open(tr, "w").write("".join(json.dumps(g, separators=(",", ":")) + "\n" for g in got))
    r = ctx.tlc("InputsTrace", env={"TRACE": tr})
    ctx.cov["traces_validated_against_impl"] += len(got)
    ctx.cov["measurements"] = sum(len(g["entries"]) for g in got if g["kind"] == "timed")
    ctx.sample(got[3]["entries"][40])
    ctx.sample(got[-1]["entries"][5])
    if r.status == "ok":
        if r.distinct != sum(len(g["entries"]) + 2 for g in got):
            raise CheckError("trace not consumed")
        return []
    st = r.last
    g = got[st["t"] - 1]
    what = {"timed": "timing program", "bench": "arithmetic benchmark", "table": "function tables"}[g["kind"]]
    return [Violation("%s (%s): %s" % (what, g["cmd"], st["verdict"]), {"state": st, "entry": g["entries"][st["i"] - 2] if st["i"] - 2 < len(g["entries"]) else None}, tr)]
