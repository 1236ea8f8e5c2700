"""C26: command lines the programs act on."""
import hashlib, json, os, re, shutil
from concurrent.futures import ThreadPoolExecutor
import vf
from vf import Violation, CheckError
from diag import TOOLS

PROGS = dict(zip(("bench", "compare", "perf"), TOOLS))


def listing(d):
    return {f: hashlib.sha1(open(os.path.join(d, f), "rb").read()).digest() for f in os.listdir(d)}


def invoke(ctx, exe, d, case):
    """Runs one command line in directory d and puts the directory back as it was."""
    before = listing(d)
    p = ctx.run([exe] + ["".join(a) for a in case["args"]], cwd=d, ok=None, timeout=60)
    code, said = p.returncode, p.stdout + p.stderr
    after = listing(d)
    written = sorted(f for f in after if before.get(f) != after[f])
    for f in written:
        os.unlink(os.path.join(d, f))
    # flags only matter where the specification says that help was asked for
    flags = sorted(set(re.findall(r"(?<![\w-])--?[A-Za-z_]\w*", said))) if any("".join(a) in ("-h", "--help") for a in case["args"]) else []
    return {"args": case["args"], "o": {"code": code, "said": 1 if said.strip() else 0, "listed": [list(f) for f in flags],
                                        "written": [list(f) for f in written[:5]], "lost": sorted(set(before) - set(after))}}


def c26(ctx):
    ctx.model("RefuseMC")
    for v in ("early", "longer", "last"):
        ctx.must_fail("RefuseMC", v, "Refused")
    pj = ctx.path("plan.json")
    ctx.tlc("RefusePlan", env={"PLAN": pj}, workers=1)
    pl = json.load(open(pj))
    sig = ctx.signatures()
    ctx.run(["g++"] + vf.BASE_FLAGS + vf.INCLUDES + ["-c", sig, "-o", ctx.path("sig.o")])
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(lambda t: ctx.compile([os.path.join(vf.REPO, "progs", t + ".cpp"), ctx.path("sig.o")], t, libs=["-lrt"]), TOOLS))
    # files to compare, three for each side
    d = ctx.path("files")
    os.makedirs(d)
    p = ctx.run([ctx.path(TOOLS[0]), "-n=f", "-s=2"], cwd=d, ok=None)
    fns = ("Exp", "Logf", "Sin")
    have = [os.path.join(d, "f__%s%s__response.txt" % (pre, f)) for pre in ("", "Fast_") for f in fns]
    if not all(map(os.path.exists, have)):
        raise CheckError("no response files to compare")

    def program(k):
        """Every eighth command line of the plan, in a directory of its own for each program."""
        out = {}
        for prog in PROGS:
            w = ctx.path("%s-%d" % (prog, k))
            os.makedirs(w)
            if prog == "compare":
                for j in range(3):
                    shutil.copy(have[j], os.path.join(w, "r%d" % (j + 1)))
                    shutil.copy(have[3 + j], os.path.join(w, "t%d" % (j + 1)))
            out[prog] = []
            for c in [c for c in pl["cases"] if c["prog"] == prog][k::8]:
                r = invoke(ctx, ctx.path(PROGS[prog]), w, c)
                out[prog].append(r)
                # a program that works on a command line it should not may write a lot
                if (not c["nick"] and r["o"]["written"]) or r["o"]["lost"] or r["o"]["code"] < 0:
                    break
            shutil.rmtree(w)
        return out
    with ThreadPoolExecutor(8) as ex:
        parts = list(ex.map(program, range(8)))
    got = [{"prog": prog, "runs": [r for p in parts for r in p[prog]]} for prog in PROGS]
    tr = ctx.path("refuse.ndjson")
    open(tr, "w").write("".join(json.dumps(g, separators=(",", ":")) + "\n" for g in got))
    r = ctx.tlc("RefuseTrace", env={"TRACE": tr})
    ctx.cov["traces_validated_against_impl"] += len(got)
    ctx.cov["command_lines"] = sum(len(g["runs"]) for g in got)
    ctx.sample([["".join(a) for a in x["args"]] for x in got[1]["runs"][20:24]])
    if r.status == "ok":
        if ctx.cov["command_lines"] != len(pl["cases"]) or r.distinct != len(pl["cases"]) + len(got):
            raise CheckError("trace not consumed: %d of %d" % (r.distinct, len(pl["cases"])))
        return []
    st = r.last
    g = got[st["t"] - 1]
    x = g["runs"][st["i"] - 2]
    return [Violation("%s %s: %s" % (PROGS[g["prog"]], " ".join("".join(a) for a in x["args"]), st["verdict"]),
                      {"state": st, "args": ["".join(a) for a in x["args"]], "observed": dict(x["o"], listed=["".join(f) for f in x["o"]["listed"]], written=["".join(f) for f in x["o"]["written"]])})]
