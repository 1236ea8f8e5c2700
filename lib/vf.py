"""Framework of the checks: build from /repo, run TLC, decide, write evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BASE_FLAGS = ["-std=c++11", "-O3", "-msse", "-pthread"]
INCLUDES = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "include", "diagnostic"), "-I" + HARNESS]


class CheckError(Exception):
    """The check itself could not be carried out (exit status 2)."""


class Died(Exception):
    """A driver with the code under test in it crashed or did not come to an end."""


def limited(cmd, gb=3):
    """The command with limits on memory and written files: code under test may loop for ever."""
    return ["sh", "-c", "ulimit -c 0; ulimit -f 4194304; %sexec \"$@\"" % ("ulimit -v %d; " % (gb << 20) if gb else ""), "sh"] + [str(c) for c in cmd]


class Violation(object):
    def __init__(self, what, detail=None, artifact=None):
        self.what, self.detail, self.artifact = what, detail, artifact


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.dir = os.path.join(VERIF, "build", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0, "samples": []}
        self.assumptions = []
        self.t0 = time.time()
        self.trace_no = 0
        self.dead = None

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---------------------------------------------------------------- running
    def run(self, cmd, env=None, cwd=None, timeout=None, ok=(0,), stdin=None, gb=3):
        driver = str(cmd[0]).startswith(self.dir + os.sep)
        if driver and self.dead:
            raise Died(self.dead)       # one endless driver is enough
        if timeout is None:
            timeout = 300 if driver and self.quick else 800
        e = dict(os.environ)
        e["VERIF_SEED"] = str(self.seed)
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        if env:
            e.update(env)
        with tempfile.TemporaryFile(dir=self.dir) as so, tempfile.TemporaryFile(dir=self.dir) as se:
            try:
                p = subprocess.run(limited(cmd, gb) if driver else cmd, env=e, cwd=cwd or self.dir, timeout=timeout, stdout=so, stderr=se,
                                   stdin=subprocess.DEVNULL if stdin is None else None, input=None if stdin is None else stdin.encode())
            except subprocess.TimeoutExpired:
                if driver:
                    self.dead = "%s did not come to an end in %d s" % (os.path.basename(cmd[0]), timeout)
                    raise Died(self.dead)
                raise CheckError("timeout: " + " ".join(map(str, cmd))[:200])
            for f, name in ((so, "stdout"), (se, "stderr")):
                f.seek(0)
                setattr(p, name, f.read(1 << 28).decode("utf-8", "replace"))
        if ok is not None and driver and -p.returncode in (4, 6, 7, 8, 11, 24, 25):
            raise Died("%s died of signal %d\n%s" % (os.path.basename(cmd[0]), -p.returncode, p.stderr[-1000:]))
        if ok is not None and p.returncode not in ok:
            raise CheckError("exit %d: %s\n%s\n%s" % (p.returncode, " ".join(map(str, cmd))[:300], p.stdout[-3000:], p.stderr[-3000:]))
        return p

    def compile(self, srcs, out, flags=None, libs=(), cxx="g++", incs=None, **kw):
        """Compiles a driver together with the library's sources of the working tree."""
        cmd = [cxx] + (BASE_FLAGS if flags is None else list(flags)) + (INCLUDES if incs is None else list(incs))
        cmd += list(srcs) + ["-o", self.path(out)] + list(libs)
        return self.run(cmd, **kw)

    def signatures(self, preload=False, sub="sig"):
        """Generates vdtMath_signatures.cc with the repository's generator."""
        d = self.path(sub)
        os.makedirs(d, exist_ok=True)
        self.run(["python3", os.path.join(REPO, "src", "signatures_generator.py")] + (["-p"] if preload else []) + ["-o", d])
        f = os.path.join(d, "vdtMath_signatures.cc")
        if not os.path.exists(f):
            raise CheckError("generator wrote no vdtMath_signatures.cc")
        return f

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, env=None, cfg=None, workers=8, timeout=800, heap="6g", extra=(), name=None):
        """Runs TLC on a module of the specification; returns a TlcResult."""
        self.trace_no += 1
        tag = "%s-%d" % (name or module, self.trace_no)
        dump = self.path(tag + ".json")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers), "-metadir", self.path(tag + ".md"), "-config", cfg or module + ".cfg",
               "-dumpTrace", "json", dump] + list(extra) + [module + ".tla"]
        p = self.run(cmd, env=env, cwd=SPEC, timeout=timeout, ok=None)
        p.stdout = "\n".join(l for l in p.stdout.split("\n") if not re.match("Parsing file|Semantic processing|Computed .* initial", l))
        shutil.rmtree(self.path(tag + ".md"), ignore_errors=True)
        r = TlcResult(p, dump)
        if r.status not in ("ok", "violated"):
            raise CheckError("TLC could not check %s (exit %d)\n%s" % (module, p.returncode, (p.stdout + p.stderr)[-3500:]))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        return r

    def model(self, module, **kw):
        """Checks a design model; a failure is an error of the specification, not of the code."""
        r = self.tlc(module, **kw)
        if r.status != "ok":
            raise CheckError("model %s does not satisfy its own properties:\n%s" % (module, r.out[-3000:]))
        return r

    def must_fail(self, module, variant, inv):
        """A deliberately wrong variant of a design model; accepting it means that the model says nothing."""
        r = self.tlc(module, cfg="%s_%s.cfg" % (module, variant), workers=1)     # one worker: always the same invariant first
        if r.status != "violated" or not r.invariant or inv not in r.invariant:
            raise CheckError("the model %s does not reject the variant %s by %s" % (module, variant, inv))

    def sample(self, s, n=6):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(s)


class TlcResult(object):
    def __init__(self, p, dump):
        self.out = p.stdout + p.stderr
        self.code = p.returncode
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", self.out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.invariant = None
        m = re.search(r"Invariant (\w+) is violated", self.out)
        if m:
            self.invariant = m.group(1)
        m = re.search(r"(?:Temporal properties were|Action property .* is|Postcondition .*) violated", self.out)
        if m and not self.invariant:
            self.invariant = m.group(0)
        if self.code == 0 and "No error has been found" in self.out:
            self.status = "ok"
        elif self.code == 12 and self.invariant:
            self.status = "violated"
        else:
            self.status = "error"
        self.last = None
        if os.path.exists(dump):
            try:
                st = json.load(open(dump))
                self.states = st
                seq = st.get("state") or st.get("counterexample", {}).get("state")
                if seq:
                    self.last = seq[-1][1]
            except Exception:
                pass


# ------------------------------------------------------------------ decision
def known_findings(prop):
    out = []
    f = os.path.join(VERIF, "KNOWN_FINDINGS.md")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"\s*-?\s*open: property=(\S+) match=/(.*)/ (.*)", l)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def write_replay(ctx, vs):
    d = os.path.join(VERIF, "replays", "%s-%s-%d" % (ctx.prop, ctx.tier, ctx.seed))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, "violation.json"), "w") as f:
        json.dump([{"what": v.what, "detail": v.detail} for v in vs], f, indent=1, default=str)
    with open(os.path.join(d, "README"), "w") as f:
        f.write("VERIF_TIER=%s VERIF_SEED=%d python3 check.py %s   (in /verif) repeats this run\n" % (ctx.tier, ctx.seed, ctx.prop))
    for v in vs:
        if v.artifact and os.path.exists(v.artifact) and os.path.getsize(v.artifact) < 20e6:
            shutil.copy(v.artifact, d)
    return d


def write_evidence(ctx, level, nviol):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": ctx.cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": nviol}
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main(prop, level, body):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = Ctx(prop, tier, seed)
    code = 2

    def attempt(c):
        try:
            return body(c)
        except Died as x:
            return [Violation("the code under test: " + str(x))]
    try:
        vs = attempt(ctx)
        if vs:
            # a rejection counts only if a complete second run repeats it
            first = ctx
            ctx = Ctx(prop, tier, seed)
            vs2 = attempt(ctx)
            if not vs2 and time.time() - first.t0 < 300:
                ctx.close()
                ctx = Ctx(prop, tier, seed)
                vs2 = attempt(ctx)
            ctx.t0 = first.t0
            if not vs2:
                raise CheckError("rejection was not repeated by a second run: " + vs[0].what)
            vs = vs2
        known = known_findings(prop)
        new = []
        for v in vs:
            hit = [k for k in known if k[0].search(v.what)]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][1]))
            else:
                new.append(v)
        write_evidence(ctx, level, len(new))
        if new:
            d = write_replay(ctx, new)
            for v in new[:5]:
                print("  " + v.what)
            print("VIOLATION property=%s replay=%s" % (prop, d))
            code = 1
        else:
            print("held: property=%s tier=%s states=%d traces=%d %.1fs" % (prop, tier, ctx.cov["states"], ctx.cov["traces_validated_against_impl"], time.time() - ctx.t0))
            code = 0
    except CheckError as e:
        print("ERROR property=%s: %s" % (prop, e))
        code = 2
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    finally:
        ctx.close()
        if "first" in dir():
            first.close()
    sys.stdout.flush()
    return code


# ------------------------------------------------------------------- helpers
def hexlimbs(l):
    return "".join("%04x" % x for x in l)


def limbs(v, n):
    return [(v >> (16 * i)) & 0xffff for i in range(n - 1, -1, -1)]


def show(l):
    """A limb-encoded number, readable."""
    import struct
    h = bytes.fromhex(hexlimbs(l))
    v = struct.unpack(">d" if len(l) == 4 else ">f", h)[0]
    return "%r (0x%s)" % (v, hexlimbs(l))
