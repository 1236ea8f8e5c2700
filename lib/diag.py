"""C16 to C22: the diagnostic classes."""
import json, os, re, shutil
from concurrent.futures import ThreadPoolExecutor
import vf
from vf import Violation, CheckError, hexlimbs, show

KINDS = {"p1": "pool of numbers", "p2": "pool of pairs", "r1": "response of one argument", "r2": "response of two arguments",
         "c1": "comparison of one argument", "c2": "comparison of two arguments"}


def must_fail(ctx, module, cfg, inv):
    r = ctx.tlc(module, cfg=cfg, workers=1)
    if r.status != "violated" or (inv and inv not in r.invariant):
        raise CheckError("the model %s accepts %s" % (module, cfg))


def died(p):
    """A driver stopped by a signal inside the code under test; its own errors exit with a status."""
    if p.returncode not in (0,) and p.returncode > 0:
        raise CheckError("driver: exit %d %s" % (p.returncode, p.stderr[-500:]))
    return p.returncode < 0


def c16(ctx):
    ctx.model("PersistMC")
    ctx.model("PersistMC", cfg="PersistMCOwn.cfg")
    must_fail(ctx, "PersistMC", "PersistMCTruncate.cfg", None)
    pj = ctx.path("plan.json")
    ctx.tlc("PersistPlan", env={"PLAN": pj, "TIER": ctx.tier}, workers=1, extra=["-seed", str(ctx.seed)])
    pl = json.load(open(pj))
    with open(ctx.path("scripts.txt"), "w") as o:
        for m in ("made", "planted", "long", "longplanted"):
            for s in pl[m]:
                o.write(m + " " + " ".join("%(op)s:%(o)d:%(f)d:%(d)d" % e for e in s) + "\n")
    patterns(ctx, pl)
    src = os.path.join(vf.HARNESS, "persist.cpp")
    p = ctx.compile([src], "persist", flags=vf.BASE_FLAGS + ["-DDEEP"], ok=None)
    if p.returncode:
        # the members were renamed: judge by what is printed
        ctx.compile([src], "persist")
        ctx.assumptions.append("comparisons observed through their printed rows")

    def one(a):
        k, f = a
        d = ctx.path("files-%s%s" % (k, f))
        os.makedirs(d)
        tr = ctx.path("persist-%s%s.ndjson" % (k, f))
        p = ctx.run([ctx.path("persist"), k, f, ctx.path("scripts.txt"), ctx.path("pat." + f), tr, d, str(ctx.seed)] + [str(n) for n in pl["sizes"]], ok=None)
        return k, f, tr, p
    jobs = [(k, f) for k in KINDS for f in "df"]
    with ThreadPoolExecutor(8) as ex:
        done = list(ex.map(one, jobs))
    vs, steps, ops = [], 0, {}
    for k, f, tr, p in done:
        prec = "double" if f == "d" else "float"
        if died(p):
            tail = open(tr).read().split("\n")[-1]
            vs.append(Violation("%s, %s precision: the process died (signal %d) in a sequence of operations" % (KINDS[k], prec, -p.returncode), tail[-2000:]))
            continue
        traces = [json.loads(l) for l in open(tr)]
        if len(traces) != len(pl["made"] + pl["long"]) + (len(pl["planted"] + pl["longplanted"]) if k[0] == "p" else 0):
            raise CheckError("scripts missing")
        r = ctx.tlc("PersistTrace", env={"TRACE": tr})
        ctx.cov["traces_validated_against_impl"] += len(traces)
        n = sum(len(t["steps"]) for t in traces)
        steps += n
        for t in traces:
            for s in t["steps"]:
                ops[s["op"]] = ops.get(s["op"], 0) + 1
        ctx.sample({"kind": k, "fmt": f, "trace": traces[len(traces) // 2]["steps"][-2:]})
        if r.status == "ok":
            if r.distinct != n + len(traces):
                raise CheckError("trace not consumed: %d of %d" % (r.distinct, n + len(traces)))
            continue
        st = r.last
        t = traces[st["t"] - 1]
        sc = [" ".join(str(x) for x in (s["op"], "object %d" % s["o"] if s["o"] else "", "file %d" % s["f"] if s["f"] else "") if x) for s in t["steps"][:st["i"] - 1]]
        vs.append(Violation("%s, %s precision: %s; operations: %s" % (KINDS[k], prec, st["verdict"], ", ".join(sc)), {"state": st, "trace": t}, tr))
    ctx.cov["operations"] = ops
    return vs


def c17(ctx):
    ctx.model("PoolsMC")
    ctx.model("PoolsMC", cfg="PoolsMCReseed.cfg")
    must_fail(ctx, "PoolsMC", "PoolsMCShared.cfg", "Prefix")
    must_fail(ctx, "PoolsMC", "PoolsMCShort.cfg", "Distinct")
    pj = ctx.path("plan.json")
    ctx.tlc("PoolsPlan", env={"PLAN": pj}, workers=1)
    pl = json.load(open(pj))
    with open(ctx.path("plan.txt"), "w") as o:
        o.write("%d %d %s\n" % (pl["spread"], pl["bins"], " ".join(map(str, pl["prefixes"]))))
        for k, e in enumerate(pl["keys"]):
            o.write("%d %d %s %s %s %s %s %d %s\n" % (k, e["dim"], e["fmt"], hexlimbs(e["lo"][0]), hexlimbs(e["hi"][0]), hexlimbs(e["lo"][1]),
                                                      hexlimbs(e["hi"][1]), e["seed"], ",".join(map(str, e["sizes"]))))
    ctx.compile([os.path.join(vf.HARNESS, "pools.cpp")], "pools")
    events = [[] for _ in pl["keys"]]
    runs = [("plain", {}), ("mixed", {"LC_ALL": "C", "SEED": "4711", "RANDOM": "1"}), ("threads", {}), ("plain", {"TZ": "UTC+5"})]
    ids = {}
    for n, (h, env) in enumerate(runs):
        f = ctx.path("pools-%d.ndjson" % n)
        p = ctx.run([ctx.path("pools"), h, ctx.path("plan.txt"), f], env=env, ok=None)
        if died(p):
            return [Violation("the process died (signal %d) while creating pools" % -p.returncode, open(f).read()[-1500:])]
        for l in open(f):
            e = json.loads(l)
            e["pre"] = [[a, ids.setdefault(b, len(ids) + 1)] for a, b in e["pre"]]
            e["sec"] = ids.setdefault(e["sec"], len(ids) + 1)
            e["tail"] = ids.setdefault("t" + e["tail"], len(ids) + 1)
            events[e["req"]].append(e)
    tr, gr = ctx.path("pools.ndjson"), ctx.path("groups.ndjson")
    groups, total = {}, 0
    with open(tr, "w") as o:
        for k, e in enumerate(pl["keys"]):
            if len(events[k]) < 3 * len(e["sizes"]):
                raise CheckError("creations missing")
            total += len(events[k])
            o.write(json.dumps(dict(e, events=events[k]), separators=(",", ":")) + "\n")
            first = [x for x in events[k] if x["n"] == 16][0]
            # the seeds have to differ at the start and at the end of long pools
            for n in set(e["sizes"]) & {4096, 70000}:
                g = groups.setdefault((e["fmt"], e["dim"], e["iv"], n), {"fmt": e["fmt"], "dim": e["dim"], "iv": e["iv"], "wide": e["fine"][0], "toks": [], "seeds": []})
                g["toks"].append([x for x in events[k] if x["n"] == n][0]["tail"])
                g["seeds"].append(e["seed"])
            g = groups.setdefault((e["fmt"], e["dim"], e["iv"]), {"fmt": e["fmt"], "dim": e["dim"], "iv": e["iv"], "wide": e["wide"][0], "toks": [], "seeds": []})
            g["toks"].append(first["pre"][-1][1])
            g["seeds"].append(e["seed"])
    open(gr, "w").write("".join(json.dumps(g) + "\n" for g in groups.values()))
    r = ctx.tlc("PoolsTrace", env={"TRACE": tr, "GROUPS": gr})
    ctx.cov["traces_validated_against_impl"] += len(pl["keys"])
    ctx.cov["creations"] = total
    for k in (5, 100, 333):
        ctx.sample({"request": {x: pl["keys"][k][x] for x in ("dim", "fmt", "seed")}, "creation": events[k][-1]})
    want = total + len(pl["keys"]) + sum(len(g["toks"]) + 1 for g in groups.values())
    if r.status == "ok":
        if r.distinct != want:
            raise CheckError("trace not consumed: %d of %d" % (r.distinct, want))
        return []
    st = r.last
    if st["t"]:
        e = pl["keys"][st["t"] - 1]
        ev = events[st["t"] - 1][st["i"] - 2]
        s = "pool of %d coordinate(s), %s precision, interval %s .. %s, seed %d, size %d (%s): %s" % (
            e["dim"], "double" if e["fmt"] == "d" else "float", show(e["lo"][0]), show(e["hi"][0]), e["seed"], ev["n"], ev["h"], st["verdict"])
    else:
        g = list(groups.values())[st["g"] - 1]
        ev = g
        s = "%s: seed %d and an earlier one of %s" % (st["verdict"], g["seeds"][st["i"] - 2], g["seeds"][:st["i"] - 2])
    return [Violation(s, {"state": st, "event": ev}, tr)]


def patterns(ctx, pl):
    for f in "df":
        open(ctx.path("pat." + f), "w").write("\n".join(hexlimbs(l) for l in pl[f]) + "\n")


def c18(ctx):
    ctx.model("ResponsesMC")
    must_fail(ctx, "ResponsesMC", "ResponsesMC_cached.cfg", "Holds")
    must_fail(ctx, "ResponsesMC", "ResponsesMC_reverse.cfg", "InOrder")
    must_fail(ctx, "ResponsesMC", "ResponsesMC_twice.cfg", "InOrder")
    pj = ctx.path("plan.json")
    ctx.tlc("ResponsesPlan", env={"PLAN": pj}, workers=1)
    pl = json.load(open(pj))
    patterns(ctx, pl)
    plan = [(k, n, r) for k in pl["kinds"] for n in pl["lengths"] for r in pl["repeats"]]
    plan += [(k, n, "distinct") for k in pl["kinds"] for n in (pl["long"] if not ctx.quick else pl["long"][-1:])]
    open(ctx.path("plan.txt"), "w").write("".join("%s %d %s\n" % e for e in plan))
    ctx.compile([os.path.join(vf.HARNESS, "responses.cpp")], "responses")
    tr = ctx.path("responses.ndjson")
    p = ctx.run([ctx.path("responses"), ctx.path("plan.txt"), ctx.path("pat.d"), ctx.path("pat.f"), tr, str(ctx.seed)], ok=None)
    lines = open(tr).read().splitlines()
    if died(p):
        e = plan[len(lines) // 2] if len(lines) // 2 < len(plan) else plan[-1]
        return [Violation("the process died (signal %d) while building a response: kind %s, %d inputs (%s)" % ((-p.returncode,) + e))]
    if len(lines) != 2 * len(plan):
        raise CheckError("responses missing")
    r = ctx.tlc("ResponsesTrace", env={"TRACE": tr}, heap="10g")
    ctx.cov["traces_validated_against_impl"] += len(lines)
    want = 0
    for l in lines:
        t = json.loads(l)
        c = len(t["calls"])
        want += 2 + (c if c <= 300 else 1)
        ctx.cov["calls"] = ctx.cov.get("calls", 0) + c
        if t["n"] == 3:
            ctx.sample(t)
    if r.status == "ok":
        if r.distinct != want:
            raise CheckError("trace not consumed: %d of %d" % (r.distinct, want))
        return []
    st = r.last
    t = json.loads(lines[st["t"] - 1])
    what = {"s1": "scalar function of one argument", "s2": "scalar function of two arguments", "a1": "array function of one argument", "a2": "array function of two arguments"}[t["kind"]]
    return [Violation("response of a %s, %s precision, %d inputs (%s), call %d: %s" % (what, "double" if t["fmt"] == "d" else "float", t["n"], t["rep"], st["i"], st["verdict"]),
                      {"state": st, "trace": {k: (v if not isinstance(v, list) else v[:50]) for k, v in t.items()}})]


def read_comparison(path, dim, rows):
    """The parts of a written comparison: five header lines, statistics, rows."""
    import struct
    from fractions import Fraction
    ls = open(path).read().split("\n")
    st = ls[5].split()

    def dbl(h):
        return struct.unpack(">d", bytes.fromhex("%016x" % int(h, 16)))[0]
    n = len(rows)
    out = {"max": int(st[0]), "min": int(st[1])}
    mean, var = dbl(st[2]), dbl(st[3])

    def scaled(x, k):
        if x != x or abs(x) == float("inf"):
            return [0, 1000000, None]
        v = Fraction(x) * k
        r = int(v + Fraction(1, 2)) if v >= 0 else -int(-v + Fraction(1, 2))
        e = int(abs(v - r) * 1000000)
        return [r if abs(r) < 2**31 else 0, e, r]
    out["mean"] = scaled(mean, n)
    out["var"] = scaled(var, n * (n - 1) if n > 1 else 1)
    m, v = out["mean"].pop(), out["var"].pop()
    out["wide"] = vf.limbs(v, 4) if v is not None and 0 <= v < 2**63 else [65535] * 4
    if m is None or abs(m) >= 2**31:
        out["mean"] = [0, 1000000]
    data = [l.split() for l in ls[6:] if l.strip()]
    out["diffs"] = [int(d[dim + 2]) for d in data]
    out["hex"] = [[int(x, 16) for x in d[:dim + 2]] for d in data]
    return out


def c19(ctx):
    ctx.model("DiffsMC")
    ctx.must_fail("DiffsMC", "either", "Extremes")
    ctx.must_fail("DiffsMC", "zero", "Extremes")
    pj = ctx.path("plan.json")
    ctx.tlc("DiffsPlan", env={"PLAN": pj}, workers=1)
    pl = json.load(open(pj))
    patterns(ctx, pl)
    ctx.compile([os.path.join(vf.HARNESS, "diffs.cpp")], "diffs")
    vs = []
    for f in "df":
        prec = "double" if f == "d" else "float"
        open(ctx.path("pairs." + f), "w").write("".join("%s %s\n" % (hexlimbs(e["a"]), hexlimbs(e["b"])) for e in pl["p" + f]))
        d = ctx.path("files-" + f)
        os.makedirs(d)
        raw = ctx.path("diffs-%s.raw" % f)
        p = ctx.run([ctx.path("diffs"), f, ctx.path("pairs." + f), ctx.path("pat." + f), raw, d, str(ctx.seed), "3000" if ctx.quick else "200000"], ok=None)
        if died(p):
            vs.append(Violation("%s precision: the process died (signal %d) while comparing" % (prec, -p.returncode)))
            continue
        tr = ctx.path("diffs-%s.ndjson" % f)
        want, npairs, ncmp, lines = 0, 0, 0, []
        with open(tr, "w") as o:
            for l in open(raw):
                t = json.loads(l)
                if t["kind"] == "pair":
                    npairs += len(t["obs"])
                    want += len(t["obs"]) + 1
                else:
                    ncmp += 1
                    rows = t["rows"]
                    chunk = 25 if len(rows) > 50 else 1
                    want += 2 + (len(rows) + chunk - 1) // chunk
                    try:
                        c = read_comparison(t.pop("file"), t["dim"], rows)
                    except (IndexError, ValueError) as e:
                        vs.append(Violation("%s precision: a comparison of %d rows wrote a file without readable statistics and rows (%s)" % (prec, len(rows), e)))
                        break
                    if len(c["diffs"]) != len(rows):
                        vs.append(Violation("%s precision: a comparison of %d rows wrote %d" % (prec, len(rows), len(c["diffs"]))))
                        break
                    for r, x in zip(rows, c["diffs"]):
                        r["d"] = x
                    pr = re.search(r"(\d+)\s+(\d+)\s+(\d+\.\d\d)\s*(-?\d+\.\d\d)$", t.pop("printed"))
                    if rows:
                        t.update({"pmax": int(pr.group(1)), "pmin": int(pr.group(2)), "pmean": int(round(float(pr.group(3)) * 100))} if pr else {"pmax": -1, "pmin": -1, "pmean": -1})
                    else:
                        t.update({"pmax": 0, "pmin": 0, "pmean": 0})
                    # the checker's integers hold 31 bits
                    big = len(rows) * sum(x * x for x in c["diffs"]) >= 2**31
                    t.update({"max": c["max"], "min": c["min"], "mean": c["mean"], "var": c["var"], "wide": c["wide"], "small": 0 if big else 1})
                o.write(json.dumps(t, separators=(",", ":")) + "\n")
                lines.append(t)
        if vs:
            break
        r = ctx.tlc("DiffsTrace", env={"TRACE": tr}, heap="10g")
        ctx.cov["traces_validated_against_impl"] += len(lines)
        ctx.cov["pairs_" + f], ctx.cov["comparisons_" + f] = npairs, ncmp
        ctx.sample({"fmt": f, "pair": lines[0]["obs"][17]})
        ctx.sample({"fmt": f, "comparison": [t for t in lines if t["kind"] == "cmp" and len(t["rows"]) == 2][3]})
        if r.status == "ok":
            if r.distinct != want:
                raise CheckError("trace not consumed: %d of %d" % (r.distinct, want))
            continue
        st = r.last
        t = lines[st["t"] - 1]
        if t["kind"] == "pair":
            ob = t["obs"][st["i"] - 2]
            s = "%s and %s: got %d and %d" % (show(ob["a"]), show(ob["b"]), ob["d"], ob["r"])
        else:
            s = "comparison of %d rows in %d dimension(s): %s" % (len(t["rows"]), t["dim"], {k: t[k] for k in ("max", "min", "mean", "var", "has")})
        vs.append(Violation("%s precision: %s: %s" % (prec, st["verdict"], s), {"state": st}, None))
    return vs


def c20(ctx):
    ctx.model("CmdMC")
    must_fail(ctx, "CmdMC", "CmdMCLast.cfg", None)
    must_fail(ctx, "CmdMC", "CmdMCNames.cfg", "Verdict")
    pj = ctx.path("plan.json")
    ctx.tlc("CmdPlan", env={"PLAN": pj, "TIER": ctx.tier}, workers=1, extra=["-seed", str(ctx.seed)])
    pl = json.load(open(pj))

    def enc(w):
        return "." + "".join("%02x" % ord(c) for c in w)
    total = 0
    with open(ctx.path("in.txt"), "w") as o:
        for t in pl:
            o.write("T " + " ".join(enc(e["s"]) + " " + enc(e["l"]) for e in t["opts"]) + "\n")
            for a in t["lists"]:
                total += 1
                o.write("A " + " ".join(enc(w) for w in a) + "\n")
    ctx.compile([os.path.join(vf.HARNESS, "cmd.cpp")], "cmd")
    tr = ctx.path("cmd.ndjson")
    p = ctx.run([ctx.path("cmd"), ctx.path("in.txt"), tr], ok=None)
    if died(p):
        return [Violation("the parser died (signal %d)" % -p.returncode, open(tr).read()[-500:])]
    traces = [json.loads(l) for l in open(tr)]
    if sum(len(t["parses"]) for t in traces) != total:
        raise CheckError("parses missing")
    r = ctx.tlc("CmdTrace", env={"TRACE": tr})
    ctx.cov["traces_validated_against_impl"] += len(traces)
    ctx.cov["command_lines"] = total
    ctx.cov["accepted"] = sum(q["ok"] for t in traces for q in t["parses"])
    for k in (9, 300, 1700):
        ctx.sample({x: traces[0]["parses"][k][x] for x in ("args", "ok", "set", "val")})
    if r.status == "ok":
        if r.distinct != total + len(traces):
            raise CheckError("trace not consumed: %d" % r.distinct)
        return []
    st = r.last
    t = traces[st["t"] - 1]
    q = t["parses"][st["i"] - 2]
    s = "options %s, command line %s: %s" % (["".join(e["s"]) + " " + "".join(e["l"]) for e in t["opts"]], ["".join(a) for a in q["args"]], st["verdict"])
    return [Violation(s + " (accepted: %d, set: %s, values: %s)" % (q["ok"], q["set"], ["".join(v) for v in q["val"]]), {"state": st, "parse": q})]


def printed(line, err):
    """A printed measurement: numbers in hundredths (limbs), 0 for what is not there."""
    m = re.match(r"^Function\s+fun_name\s*:\s*(\S+)\s*\+-\s*(\S+)\s*ns(?:\s.*?([\d.]+|inf|-?nan)\s*X\b.*)?\s*$", line)

    def hundredths(x):
        if not x or not re.match(r"^\d+\.\d\d$", x):
            return vf.limbs(0, 4)
        return vf.limbs(min(int(x.replace(".", "")), 2**64 - 1), 4)
    bad = err != err or err < 0 or err * 100 >= 2**63
    return {"ok": 1 if m else 0, "mean": hundredths(m and m.group(1)), "err": hundredths(m and m.group(2)), "scaled": 1 if m and m.group(3) else 0,
            "speed": hundredths(m and m.group(3)), "want": vf.limbs(0 if bad else int(err * 100), 4)}


def c22(ctx):
    import struct
    from fractions import Fraction
    ctx.model("TimingMC")
    must_fail(ctx, "TimingMC", "TimingMC_warm.cfg", "Total")
    must_fail(ctx, "TimingMC", "TimingMC_late.cfg", "Total")
    must_fail(ctx, "TimingMC", "TimingMC_skip.cfg", "EveryInput")
    pj = ctx.path("plan.json")
    ctx.tlc("TimingPlan", env={"PLAN": pj, "TIER": ctx.tier}, workers=1, extra=["-seed", str(ctx.seed)])
    pl = json.load(open(pj))
    open(ctx.path("pairs.txt"), "w").write("".join("%d %d %d %d\n" % (a["s"], a["n"], b["s"], b["n"]) for a, b in pl["pairs"]))
    open(ctx.path("runs.txt"), "w").write("".join("%(kind)s %(fmt)s %(n)d %(reps)d " % r + " ".join("%(s)d:%(n)d" % x for x in r["readings"]) + "\n" for r in pl["runs"]))
    ctx.compile([os.path.join(vf.HARNESS, "timing.cpp")], "timing", flags=vf.BASE_FLAGS + ["-rdynamic"])
    raw, tr = ctx.path("timing.raw"), ctx.path("timing.ndjson")
    p = ctx.run([ctx.path("timing"), ctx.path("pairs.txt"), ctx.path("runs.txt"), raw], ok=None)
    if died(p):
        return [Violation("the process died (signal %d) while measuring" % -p.returncode, open(raw).read()[-500:])]

    def big():
        outs = [ctx.path("big%d.json" % i) for i in range(len(pl["bigs"]))]

        def go(i):
            g = pl["bigs"][i]
            ctx.run([ctx.path("timing"), "big", g["kind"], g["fmt"], str(g["n"]), str(g["reps"]), str(g["dt"]), outs[i]])
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(go, range(len(outs))))
        return outs
    traces, want = [], 0
    lines = open(raw).read().splitlines() + [open(b).read() for b in big()]
    with open(tr, "w") as o:
        for l in lines:
            t = json.loads(l)
            if t["kind"] != "timer":
                m = struct.unpack(">d", bytes.fromhex(t.pop("mean")))[0]
                k = t["n"] * t["reps"]
                if m != m or m < 0 or m * k >= 2**63:
                    t["avg"], t["res"] = [65535] * 4, 1000000
                else:
                    v = Fraction(m) * k
                    a = int(v + Fraction(1, 2))
                    t["avg"] = vf.limbs(a, 4)
                    t["res"] = int(abs(v - a) * 1000000)
                t["shown"] = repr(m)
                e = struct.unpack(">d", bytes.fromhex(t.pop("error")))[0]
                q = -1 if e != e or e < 0 or e == float("inf") else int((Fraction(e) * t["n"] * t["reps"])**2 * (t["reps"] - 1) + Fraction(1, 2))
                t["err"] = vf.limbs(q, 8) if 0 <= q < 2**128 else [65535] * 8
                t["shown_error"] = repr(e)
                if t["kind"] == "run":
                    t["lines"] = [printed(l, e) for l in t["lines"]]
                if t["kind"] == "big":
                    t["evals"] = vf.limbs(t["evals"], 4)
                    t.pop("readings")
                    want += 2
                else:
                    want += len(t["ev"]) + 2
            else:
                want += len(t["obs"]) + 1
            o.write(json.dumps(t, separators=(",", ":")) + "\n")
            traces.append(t)
    if len(traces) != 1 + len(pl["runs"]) + len(pl["bigs"]):
        raise CheckError("measurements missing")
    r = ctx.tlc("TimingTrace", env={"TRACE": tr})
    ctx.cov["traces_validated_against_impl"] += len(traces)
    ctx.cov["clock_pairs"] = len(traces[0]["obs"])
    ctx.sample(traces[0]["obs"][200])
    ctx.sample(traces[5])
    if r.status == "ok":
        if r.distinct != want:
            raise CheckError("trace not consumed: %d of %d" % (r.distinct, want))
        return []
    st = r.last
    t = traces[st["t"] - 1]
    if t["kind"] == "timer":
        ob = t["obs"][st["i"] - 2]
        s = "readings %s and %s, elapsed 0x%s: %s" % (ob["r1"], ob["r2"], hexlimbs(ob["e"]), st["verdict"])
    else:
        s = "measurement (%s, %s) of %d inputs, %d repetitions, mean %s, error %s: %s" % (t["what"], t["fmt"], t["n"], t["reps"], t["shown"], t["shown_error"], st["verdict"])
    return [Violation(s, {"state": st}, tr)]


TOOLS = ("vdtArithmBenchmark", "vdtArithmComparison", "vdtPerfBenchmark")


def c21(ctx):
    ctx.model("ToolsMC")
    must_fail(ctx, "ToolsMC", "ToolsMC_stop.cfg", "Compared")
    must_fail(ctx, "ToolsMC", "ToolsMC_shift.cfg", "Compared")
    must_fail(ctx, "ToolsMC", "ToolsMC_swap.cfg", "Compared")
    pj = ctx.path("plan.json")
    ctx.tlc("ToolsPlan", env={"PLAN": pj, "TIER": ctx.tier}, workers=1, extra=["-seed", str(ctx.seed)])
    pl = json.load(open(pj))
    sig = ctx.signatures()
    ctx.run(["g++"] + vf.BASE_FLAGS + vf.INCLUDES + ["-c", sig, "-o", ctx.path("sig.o")])

    def build(t):
        src = os.path.join(vf.HARNESS, "tools.cpp") if t == "tools" else os.path.join(vf.REPO, "progs", t + ".cpp")
        ctx.compile([src, ctx.path("sig.o")], t, libs=["-lrt"])
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(build, TOOLS + ("tools",)))
    ids = {}        # (name of the function, bytes) -> token
    contents = []

    def parse(d, name):
        """Token of one file; comparisons are parsed here, responses by the driver."""
        data = open(os.path.join(d, name), "rb").read()
        fn = name[:-len("__response.txt")].rsplit("__", 1)[-1] if name.endswith("__response.txt") else ""
        k = (fn, data)
        if k not in ids:
            ids[k] = len(contents) + 1
            if fn:
                p = ctx.path("content-%d" % ids[k])
                open(p, "wb").write(data)
                contents.append((p, fn))
            else:
                contents.append(parse_comparison(data))
        return ids[k]
    traces, vs = [], []
    for n, sc in enumerate(pl["scenarios"]):
        d = ctx.path("dir-%d" % n)
        for s in ("", "sub", "Atan2"):
            os.makedirs(os.path.join(d, s))
        steps = []
        for st in sc:
            if st["op"] == "remove":
                f = os.path.join(d, st["file"])
                if os.path.exists(f):
                    os.unlink(f)
            else:
                if st["op"] == "bench":
                    lg = st["form"] == "long"
                    cmd = [ctx.path(TOOLS[0]), ("--nick=" if lg else "-n=") + st["nick"]] + ([("--size=" if lg else "-s=") + str(st["size"])] if st["size"] >= 0 else [])
                else:
                    cmd = [ctx.path(TOOLS[1]), "-n=" + st["nick"], "-R=" + ",".join(st["refs"]), "-T=" + ",".join(st["tests"])]
                    if len(steps) % 2:
                        cmd = cmd[:1] + ["--test=" + cmd[3][3:], "--nick=" + cmd[1][3:], "--reference=" + cmd[2][3:]]
                p = ctx.run(cmd, cwd=d, ok=None)
                if p.returncode < 0:
                    return [Violation("%s died (signal %d): %s" % (os.path.basename(cmd[0]), -p.returncode, " ".join(cmd[1:])[:300]))]
            names = []
            for b, _, fs in os.walk(d):
                names += [os.path.relpath(os.path.join(b, f), d) for f in fs]
            if st["op"] == "compare":
                st = dict(st, printed=[{"max": int(a), "min": int(b), "mean": int(round(float(c) * 100))} for a, b, c in re.findall(r"\s(\d{1,5})\s+(\d{1,5})\s+(\d{1,5}\.\d\d)\s*-?\d+\.\d\d\s*$", p.stdout, re.M)])
            steps.append(dict(st, dir={f: parse(d, f) for f in sorted(names) if f.endswith(".txt")}))
        traces.append({"kind": "scenario", "steps": steps})
        shutil.rmtree(d)
    todo = [c for c in contents if isinstance(c, tuple)]
    open(ctx.path("list.txt"), "w").write("".join("%s\t%s\n" % c for c in todo))
    p = ctx.run([ctx.path("tools"), "files", ctx.path("list.txt"), ctx.path("responses.ndjson")], ok=None)
    if died(p):
        raise CheckError("reader died")
    read = iter(open(ctx.path("responses.ndjson")).read().splitlines())
    with open(ctx.path("contents.ndjson"), "w") as o:
        for c in contents:
            o.write((next(read) if isinstance(c, tuple) else json.dumps(c, separators=(",", ":"))) + "\n")
    for c in todo:
        os.unlink(c[0])
    # the timing tool
    d = ctx.path("timing")
    os.makedirs(d)
    obs = []
    for k, e in enumerate(pl["patterns"]):
        nick = "p%d" % k
        cmd = [ctx.path(TOOLS[2]), "-n=" + nick, "-s=%d" % (1 + k % 5), "-r=%d" % (1 + k % 2), ("--pattern=" if k % 3 == 0 else "-p=") + e["text"]]
        if k % 4 == 1:
            cmd += ["-M=50", "--pool_min=-7"]
        if e["text"] == ".*":
            cmd = [c for c in cmd if not c.startswith(("-p=", "--pattern="))]
        p = ctx.run(cmd, cwd=d, ok=None)
        if p.returncode < 0:
            return [Violation("%s died (signal %d): %s" % (TOOLS[2], -p.returncode, " ".join(cmd[1:])))]
        f = os.path.join(d, nick + "__performance_benchmark.txt")
        txt = open(f).read() if os.path.exists(f) else ""
        names = re.findall(r"^\s*Function\s+(\S+)\s*:", txt, re.M)
        obs.append({"text": e["text"], "names": names})
    if not any(x["names"] for x in obs):
        raise CheckError("no timings recognised")
    traces.append({"kind": "patterns", "obs": obs})
    p = ctx.run([ctx.path("tools"), "tables", "60", ctx.path("tables.ndjson")], ok=None)
    if died(p):
        return [Violation("the process died (signal %d) while evaluating the function tables" % -p.returncode)]
    tab = [json.loads(l) for l in open(ctx.path("tables.ndjson"))]
    suffix = {f["name"]: f["suffix"] for f in pl["timed"]}
    for s in ("", "f", "v", "fv"):
        traces.append({"kind": "table", "suffix": s, "obs": [t for t in tab if suffix.get(t["label"], "") == s]})
    tr = ctx.path("tools.ndjson")
    open(tr, "w").write("".join(json.dumps(t, separators=(",", ":")) + "\n" for t in traces))
    r = ctx.tlc("ToolsTrace", env={"TRACE": tr, "CONTENTS": ctx.path("contents.ndjson")}, heap="10g")
    ctx.cov["traces_validated_against_impl"] += len(traces)
    ctx.cov.update({"invocations": sum(len(s) for s in pl["scenarios"]), "patterns": len(obs), "files": len(contents), "table_entries": len(tab)})
    ctx.sample({k: v for k, v in traces[0]["steps"][20].items() if k != "dir"})
    ctx.sample(obs[7])
    want = len(traces) + sum(len(t["steps"]) if t["kind"] == "scenario" else len(t["obs"]) + (t["kind"] == "table") for t in traces)
    if r.status == "ok":
        if r.distinct != want:
            raise CheckError("trace not consumed: %d of %d" % (r.distinct, want))
        return []
    st = r.last
    t = traces[st["t"] - 1]
    if t["kind"] == "scenario":
        s = t["steps"][st["i"] - 2]
        what = "benchmark with nickname %s, size %s" % (s["nick"], s["size"] if s["size"] >= 0 else "not given") if s["op"] == "bench" else "comparison of %s with %s" % (",".join(s["refs"]), ",".join(s["tests"]))
        art = {k: v for k, v in s.items() if k != "dir"}
    elif t["kind"] == "patterns":
        what, art = "timing tool with pattern %s" % t["obs"][st["i"] - 2]["text"], t["obs"][st["i"] - 2]
    else:
        what, art = "function tables", None
    return [Violation("%s: %s" % (what[:300], st["verdict"]), {"state": {k: v for k, v in st.items() if k != "dir"}, "step": art})]


def parse_comparison(data):
    """A written comparison as rows of bit patterns in limbs."""
    ls = data.decode("latin-1").split("\n")
    if len(ls) < 6 or "Precision" not in ls[1]:
        return {"kind": "other"}
    w = 16 if ls[1].startswith("Double") else 8
    rows, ds = [], []
    for l in ls[6:]:
        f = l.split()
        hx = [x for x in f if x.startswith("0x")]
        if not f:
            continue
        v = []
        for x in hx:
            h = x[2:].zfill(w)
            v.append([int(h[k:k + 4], 16) for k in range(0, w, 4)] if len(h) == w and re.match("^[0-9a-f]+$", h) else [])
        rows.append(v)
        rest = f[len(hx):]
        ds.append(int(rest[0]) if rest and re.match(r"^\d{1,6}$", rest[0]) else -1)
    return {"kind": "comparison", "rows": rows, "d": ds}
