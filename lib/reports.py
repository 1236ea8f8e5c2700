"""C28: what is shown on the screen."""
import json, os, re
from decimal import Decimal, localcontext
import vf
from vf import Violation, CheckError, hexlimbs

NUMBER = r"(?<![\w.])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)(?![\w.])"
BITS = re.compile(r"^\s*([01]) ([01]+) ([01]+)\s*$")


def shortest(text, digits):
    """A decimal number, rounded, in its shortest form; other words as they are."""
    try:
        with localcontext() as c:
            c.prec = digits
            d = +Decimal(text)
            return format(d.normalize(), "f") if d.is_finite() else text
    except ArithmeticError:
        return text


def texts(lines):
    return [" ".join(m.groups()) for m in map(BITS.match, lines) if m]


def numbers(line, digits):
    return [shortest(x, digits) for x in re.findall(NUMBER, line)]


def whole(x):
    return int(x) if re.match(r"^\d{1,5}$", x) else -1


def function_rows(out):
    """Reports on functions: numbers up to a difference, then the bits."""
    rows, nums, bits = [], [], []
    for l in out.split("\n"):
        if BITS.match(l):
            bits += texts([l])
            continue
        if bits and l.strip():
            rows.append((nums, bits))
            nums, bits = [], []
        nums += re.findall(NUMBER, l)
    if nums or bits:
        rows.append((nums, bits))
    return [{"nums": [shortest(x, 6) for x in a[:-1]], "diff": whole(a[-1]) if a else -1, "texts": b} for a, b in rows]


def object_rows(out, compares, fmt):
    rows, end, digits = [], {"max": -1, "min": -1}, 15 if fmt == "d" else 6
    for l in out.split("\n"):
        m = re.match(r"^\s*(\d+)/(\d+)(?!\d)(.*)$", l)
        if m:
            rest = m.group(3)
            hx = re.findall(r"0[xX]([0-9a-fA-F]+)", rest)
            nums = re.findall(NUMBER, re.sub(r"0[xX][0-9a-fA-F]+", " ", rest))
            row = {"index": whole(m.group(1)), "total": whole(m.group(2)), "diff": -1, "bits": [vf.limbs(int(h, 16), 4 if fmt == "d" else 2) for h in hx if len(h) <= (16 if fmt == "d" else 8)]}
            if compares and nums:
                row["diff"] = whole(nums.pop())
            row["nums"] = [shortest(x, digits) for x in nums]
            rows.append(row)
        for k in end:
            m = re.match(r"^\s*%s\w*\b[^:]*:\s*(\d+)\s*$" % k, l, re.I)
            if m:
                end[k] = whole(m.group(1))
    return rows, end


def c28(ctx):
    ctx.model("ReportMC")
    for v, inv in (("short", "Rows"), ("before", "Rows"), ("swapped", "Rows"), ("upper", "Readable"), ("exponent", "Readable")):
        ctx.must_fail("ReportMC", v, inv)
    pj = ctx.path("plan.json")
    ctx.tlc("ReportPlan", env={"PLAN": pj, "TIER": ctx.tier}, workers=1)
    pl = json.load(open(pj))
    ctx.compile([os.path.join(vf.HARNESS, "report.cpp")], "report")
    items = [("T", f, b) for f in "df" for b in pl["texts"][f]] + [("P", p["fmt"], p) for p in pl["pairs"]] + [("R", r["fmt"], r) for r in pl["reports"]]
    with open(ctx.path("plan.txt"), "w") as o:
        for what, f, x in items:
            if what == "T":
                o.write("T %s %s\n" % (f, hexlimbs(x)))
            elif what == "P":
                o.write("P %s %s %s %d\n" % (f, hexlimbs(x["a"]), hexlimbs(x["b"]), x["show"]))
            else:
                o.write("R %s %s %d\n" % (f, x["kind"], x["n"]))
                for row in zip(x["in1"], x["in2"], x["out1"], x["out2"]):
                    o.write(" ".join(row) + "\n")
    d = ctx.path("shown")
    os.makedirs(d)
    p = ctx.run([ctx.path("report"), ctx.path("plan.txt"), d], ok=None)
    if p.returncode > 0:
        raise CheckError("driver: exit %d %s" % (p.returncode, p.stderr[-500:]))
    if p.returncode < 0:
        return [Violation("the process died (signal %d) while showing %s" % (-p.returncode, items[min(len(os.listdir(d)), len(items) - 1)][:2]))]
    traces = {}
    for k, (what, f, x) in enumerate(items):
        out = open(os.path.join(d, "%d.txt" % k), errors="replace").read()
        if what == "T":
            traces.setdefault("T" + f, {"kind": "texts", "fmt": f, "rows": []})["rows"].append({"b": x, "text": out[:-1]})
        elif what == "P":
            bits = texts(out.split("\n"))
            m = re.findall(NUMBER, "\n".join(l for l in out.split("\n") if not BITS.match(l)))
            traces.setdefault("P" + f, {"kind": "pairs", "fmt": f, "rows": []})["rows"].append(
                {"a": x["a"], "b": x["b"], "show": x["show"], "diff": whole(m[-1]) if m else -1, "texts": bits})
        else:
            w = 4 if f == "d" else 2
            b = [[vf.limbs(int(h, 16), w) for h in l.split()] for l in open(os.path.join(d, "%d.bits" % k)).read().split("\n")[:2]]
            rows, end = (function_rows(out), {"max": -1, "min": -1}) if x["kind"][:-1] in ("scalar", "loop", "array") else object_rows(out, x["kind"][:-1] == "comparison", f)
            digits = 15 if f == "d" else 6
            t = dict(x, rows=rows, b1=b[0], b2=b[1], **end)
            for c in ("in1", "in2", "out1", "out2"):
                t[c] = [shortest(v, digits) for v in x[c]]
            traces[k] = t
    traces = list(traces.values())
    tr = ctx.path("shown.ndjson")
    open(tr, "w").write("".join(json.dumps(t) + "\n" for t in traces))
    r = ctx.tlc("ReportTrace", env={"TRACE": tr})
    ctx.cov["traces_validated_against_impl"] += len(traces)
    ctx.cov["rows"] = sum(len(t["rows"]) for t in traces)
    ctx.sample(traces[0]["rows"][3])
    ctx.sample(traces[-1]["rows"][-1])
    if r.status == "ok":
        if r.distinct != sum(len(t["rows"]) + 2 for t in traces):
            raise CheckError("trace not consumed")
        return []
    st = r.last
    t = traces[st["t"] - 1]
    j = st["i"] - 2
    row = t["rows"][j] if j < len(t["rows"]) else None
    return [Violation("shown on the screen, %s (%s precision): %s: %s" % (t["kind"], "double" if t["fmt"] == "d" else "single", st["verdict"], json.dumps(row)[:400]), {"state": st, "row": row}, tr)]
