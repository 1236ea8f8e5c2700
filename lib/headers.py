"""C14: combinations of headers, linking, exported array functions."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import vf
from vf import Violation, CheckError


def uses(items):
    """Statements that use everything the headers provide."""
    o = []
    for it in items:
        n, k = it["n"], it["k"]
        for t in ("double", "float"):
            s = "f" if t == "float" else ""
            m = n[:-1] + s + "v" if k[0] == "v" else n + s
            if k[0] == "t":
                a = ",".join(["%s(0.7)" % t] * int(k[1]))
                o.append('put("%s_%s", vdt::%s<%s>(%s));' % (n, t, n, t, a))
            elif k == "s1":
                o.append('{ volatile %s x = (%s)0.7; put("%s", vdt::%s(x)); }' % (t, t, m, m))
            elif k == "s2":
                o.append('{ volatile %s x = (%s)0.7, y = (%s)-1.9; put("%s", vdt::%s(x, y)); }' % (t, t, t, m, m))
            elif k == "j":
                o.append('{ volatile %s x = (%s)0.7; %s s, c; vdt::%s(x, s, c); put("%s.s", s); put("%s.c", c); }' % (t, t, t, m, m, m))
            elif k == "v1":
                o.append('{ %s a[3] = {(%s)0.7, (%s)0.2, (%s)0.9}, r[3]; vdt::%s(3, a, r); put3("%s", r); }' % (t, t, t, t, m, m))
            elif k == "v2":
                o.append('{ %s a[3] = {(%s)0.7, (%s)0.2, (%s)0.9}, b[3] = {(%s)-1.9, (%s)0.4, (%s)3}, r[3]; vdt::%s(3, a, b, r); put3("%s", r); }' % (t, t, t, t, t, t, t, m, m))
    return o


PROBE = """
#include <stdio.h>
#include <string.h>
static void hex(const char *n, int i, double v) { unsigned long long u; memcpy(&u, &v, 8); printf("%s#%d %016llx\\n", n, i, u); }
static void hex(const char *n, int i, float v) { unsigned u; memcpy(&u, &v, 4); printf("%s#%d %08x\\n", n, i, u); }
template <class T> static void put(const char *n, T v) { hex(n, 0, v); }
template <class T> static void put3(const char *n, const T *v) { for (int i = 0; i < 3; ++i) hex(n, i, v[i]); }
"""


def unit(pl, seq, fn):
    its, seen = [], set()
    for h in seq:
        for it in pl["provides"][h - 1]:
            if (it["n"], it["k"]) not in seen:
                seen.add((it["n"], it["k"]))
                its.append(it)
    # the headers come first: they may not rely on anything included before them
    return "".join('#include "%s"\n' % pl["headers"][h - 1] for h in seq) + PROBE + "void %s() {\n%s\n}\n" % (fn, "\n".join(uses(its)))


def declared(ctx):
    """Array functions declared by the headers: {mangled name: name}."""
    src = ctx.path("decl.cc")
    open(src, "w").write('#include "vdtMath.h"\n#include "identity.h"\n#include "sincos.h"\n#include "stdwrap.h"\n')
    p = ctx.run(["clang++", "-std=c++11", "-D__extern_always_inline=inline", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=vdt", "-I" + os.path.join(vf.REPO, "include"), src], ok=None)
    out, dec, pos = {}, json.JSONDecoder(), 0
    t = p.stdout

    def walk(n):
        if n.get("kind") == "FunctionDecl" and "mangledName" in n:
            pt = [c["type"].get("desugaredQualType", c["type"]["qualType"]) for c in n.get("inner", []) if c.get("kind") == "ParmVarDecl"]
            if len(pt) >= 3 and n["type"]["qualType"].startswith("void (") and all("*" in q for q in pt[1:]) and "*" not in pt[0] and "&" not in pt[0]:
                out[n["mangledName"]] = n["name"]
        for c in n.get("inner", []):
            if isinstance(c, dict):
                walk(c)

    while True:
        pos = t.find("{", pos)
        if pos < 0:
            break
        n, pos = dec.raw_decode(t, pos)
        walk(n)
    return out, p.returncode


def nm(ctx, f, *opt):
    strong, undef = [], []
    for l in ctx.run(["nm"] + list(opt) + [f]).stdout.splitlines():
        w = l.split()
        ty, s = w[-2], w[-1].split("@")[0]
        if not s.startswith(("_ZN3vdt", "_ZNK3vdt", "_ZGVN3vdt", "_ZGRN3vdt")):
            continue
        if ty == "U":
            undef.append(s)
        elif ty in "TDBRGSC":
            strong.append(s)
    return strong, undef


def c14(ctx):
    ctx.model("HeadersMC")
    for c in ("Guard", "Self"):
        if ctx.tlc("HeadersMC", cfg="HeadersMC%s.cfg" % c).status != "violated":
            raise CheckError("pairs of headers do not reveal a missing " + c)
    pj = ctx.path("headers.json")
    env = {"TIER": ctx.tier, "SEEDN": str(ctx.seed % 100000), "PLAN": pj}
    ctx.tlc("HeadersPlan", env=env, workers=1)
    pl = json.load(open(pj))
    evs, what = [], {}
    inc = ["-I" + os.path.join(vf.REPO, "include")]
    extra = {"g++": ["-msse"], "clang++": ["-msse", "-D__extern_always_inline=inline"]}

    def syntax(k):
        u = pl["units"][k]
        cc, std = u["how"]["cc"], u["how"]["std"]
        f = ctx.path("u%d.cc" % k)
        open(f, "w").write(unit(pl, u["seq"], "use"))
        p = ctx.run([cc, "-std=" + std] + extra[cc] + inc + ["-fsyntax-only", f], ok=None)
        return p.returncode, p.stderr

    with ThreadPoolExecutor(8) as ex:
        for u, (rc, err) in zip(pl["units"], ex.map(syntax, range(len(pl["units"])))):
            evs.append({"k": "unit", "how": u["how"], "seq": u["seq"], "ok": 1 if rc == 0 else 0})
            if rc:
                m = re.findall("error: .*", err)
                what[len(evs)] = "%s -std=%s, including %s: %s" % (u["how"]["cc"], u["how"]["std"], " ".join(pl["headers"][h - 1] for h in u["seq"]), m[:2])
    ctx.cov["sequences_compiled"] = len(evs)
    # a program of many units
    H = range(1, len(pl["headers"]) + 1)
    seqs = [[h] for h in H] + [[h, h] for h in H] + [list(H), list(reversed(H))]
    names, objs = ["probe%d" % k for k in range(len(seqs))], []

    def obj(k):
        f = ctx.path("o%d.cc" % k)
        open(f, "w").write(unit(pl, seqs[k], names[k]))
        p = ctx.run(["g++", "-std=" + ("c++11", "c++17", "c++20")[k % 3], "-O%d" % (0, 2)[k % 2], "-msse", "-fPIC"] + inc + ["-c", f, "-o", ctx.path("o%d.o" % k)], ok=None)
        return p.returncode

    with ThreadPoolExecutor(8) as ex:
        rcs = list(ex.map(obj, range(len(seqs))))
    if any(rcs) and not what:
        raise CheckError("a unit that passed the syntax check does not compile")
    if not what:
        sig = ctx.signatures()
        p = ctx.run(["g++", "-std=c++11", "-O3", "-msse", "-fPIC"] + inc + ["-c", sig, "-o", ctx.path("lib.o")], ok=None)
        if p.returncode:
            evs.append({"k": "link", "ok": 0})
            what[len(evs)] = "the library: " + p.stderr[:500]
    if not what:
        objs = [ctx.path("o%d.o" % k) for k in range(len(seqs))] + [ctx.path("lib.o")]
        need = set()
        for o in objs:
            s, u = nm(ctx, o)
            need |= set(u)
            evs.append({"k": "obj", "strong": s})
            what[len(evs)] = "strong definitions in " + os.path.basename(o)
        for s in sorted(need):
            evs.append({"k": "sym", "sym": s})
            what[len(evs)] = s
        open(ctx.path("main.cc"), "w").write("".join("void %s();\n" % n for n in names) + "#include <stdio.h>\nint main() {\n" + "".join('puts("# %d"); %s();\n' % (k, n) for k, n in enumerate(names)) + "}\n")
        ctx.run(["g++", "-c", ctx.path("main.cc"), "-o", ctx.path("main.o")])
        p = ctx.run(["g++", ctx.path("main.o")] + objs + ["-o", ctx.path("prog")], ok=None)
        evs.append({"k": "link", "ok": 1 if p.returncode == 0 else 0})
        what[len(evs)] = re.findall("multiple definition.*|undefined reference.*", p.stderr)[:3]
        linked = p.returncode == 0
        ctx.run(["g++", "-shared", ctx.path("lib.o"), "-o", ctx.path("libvdt.so")], ok=None)
        dec, rc = declared(ctx)
        if rc:
            raise CheckError("clang cannot list the declarations")
        count = {}
        exported = nm(ctx, ctx.path("libvdt.so"), "-D", "--defined-only")[0] if os.path.exists(ctx.path("libvdt.so")) else []
        for s in exported:
            count[s] = count.get(s, 0) + 1
        for m in sorted(dec):
            evs.append({"k": "lib", "name": dec[m], "count": count.get(m, 0)})
            what[len(evs)] = "%s (%s)" % (dec[m], m)
        ctx.cov["declared_array_functions"] = len(dec)
        if linked:
            p = ctx.run([ctx.path("prog")], ok=None)
            vals, k = {}, 0
            res = []
            for l in p.stdout.splitlines():
                if l.startswith("# "):
                    k = int(l[2:])
                    continue
                n, v = l.split()
                res.append((k, n, v))
                vals.setdefault(n, v)
            pairs = {"identity2Dv", "fast_atan2v", "identity2Dfv", "fast_atan2fv"}
            for k, n, v in res:
                base = n.split("#")[0]
                sc = v
                if base in pairs and n.endswith("#0"):
                    sc = vals.get(base[:-1] + "#0", v)
                e = {"k": "val", "name": n, "y": v, "arr": v, "sc": sc}
                evs.append(e)
                what[len(evs)] = "%s in the unit including %s: %s (scalar %s)" % (n, " ".join(pl["headers"][h - 1] for h in seqs[k]), v, sc)
            ctx.cov["values_compared"] = len(res)
    tr = ctx.path("headers.ndjson")
    with open(tr, "w") as o:
        for e in evs:
            o.write(json.dumps(e, separators=(",", ":")) + "\n")
    r = ctx.tlc("HeadersTrace", env=dict(env, TRACE=tr), workers=1)
    ctx.cov["traces_validated_against_impl"] += 1
    ctx.cov["events"] = len(evs)
    ctx.sample(evs[20])
    ctx.sample(evs[-1])
    if r.status == "ok":
        if r.distinct != len(evs) + 1:
            raise CheckError("header trace not consumed")
        return []
    st = r.last
    if r.invariant == "Complete" and st["verdict"] == "ok":
        raise CheckError("header trace incomplete")
    k = st["i"] - 1
    return [Violation("%s: %s" % (st["verdict"], what.get(k, evs[k - 1])), evs[k - 1], tr)]
