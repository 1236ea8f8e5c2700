"""Loads the NumPy module (built with stand-ins) and calls the loops of its functions as NumPy would: npcalls.py DIR PLAN TRACE"""
import ctypes, ctypes.util, json, mmap, os, signal, sys
sys.dont_write_bytecode = True
d, plan, out = sys.argv[1:]
sys.path.insert(0, d)
import vdtnpfun
lib = ctypes.CDLL(vdtnpfun.__file__)
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
LOOP = ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p)
CODE = {"f": 11, "d": 12}
CT = {"f": ctypes.c_float, "d": ctypes.c_double}
REST = -77.0            # content of the cells that do not belong to an array
pl = json.load(open(plan))


def ufunc(name):
    r = vdtnpfun.__dict__.get(name)
    return r if isinstance(r, tuple) and len(r) == 4 else None


def region(size):
    """Accessible memory between two inaccessible pages."""
    pg = mmap.PAGESIZE
    n = -(-size // pg) * pg
    a = libc.mmap(None, n + 2 * pg, 3, 0x22, -1, 0)
    if a in (None, ctypes.c_void_p(-1).value):
        sys.exit("no memory")
    libc.mprotect(a, pg, 0)
    libc.mprotect(a + pg + n, pg, 0)
    return a + pg, n


def calls(fn, fmt, loop, nin, layouts, start, w):
    item = ctypes.sizeof(CT[fmt])
    regs = [region(4096) for _ in range(4)]
    cells = [(CT[fmt] * (n // item)).from_address(a) for a, n in regs]
    f = LOOP(loop[0])
    for l in layouts[start:]:
        w.write("{}\n")
        w.flush()
        n, steps = l["n"], l["steps"]
        args, at = [], []
        for k, s in enumerate(steps):
            c = cells[k]
            c[:] = [REST] * len(c)
            low, high = min(0, s * (n - 1)), max(0, s * (n - 1))
            base = len(c) - 1 - high if l["place"] == "hi" else -low
            if n == 0:
                base = len(c) if l["place"] == "hi" else 0
            idx = [base + s * i for i in range(n)]
            if k < nin:
                for i, j in enumerate(idx):
                    c[j] = 1 if s == 0 else i + 1
            at.append(idx)
            args.append(regs[k][0] + base * item)
        before = [list(c) for c in cells[:len(steps)]]
        f((ctypes.c_void_p * 4)(*args), (ctypes.c_long * 1)(n), (ctypes.c_long * 4)(*[s * item for s in steps]), loop[1])
        after = [list(c) for c in cells[:len(steps)]]
        o = {"n": n, "steps": steps, "place": l["place"], "end": "returned", "moved": int(before[:nin] != after[:nin]), "around": 0, "out": []}
        for k in range(nin, len(steps)):
            own = set(at[k])
            o["around"] += sum(a != b for j, (a, b) in enumerate(zip(before[k], after[k])) if j not in own)
            vals = [after[k][j] for j in at[k]]
            o["out"].append([int(v) if v == v and abs(v) < 2 ** 30 and v == int(v) else -1 for v in vals])
        w.write(json.dumps(o) + "\n")
        w.flush()


def giant(fmt, loop, nargs, n, w):
    item = ctypes.sizeof(CT[fmt])
    args = []
    for _ in range(nargs):
        a = libc.mmap(None, n * item, 3, 0x4022, -1, 0)
        if a in (None, ctypes.c_void_p(-1).value):
            w.write(json.dumps({"end": "unmapped"}) + "\n")
            return
        args.append(a)
    c = lambda s: ctypes.c_long.in_dll(lib, s)
    nxt = (ctypes.c_void_p * 4).in_dll(lib, "np_next")
    for k, a in enumerate(args):
        nxt[k] = a
    c("np_counting").value = 1
    w.write("{}\n")
    w.flush()
    LOOP(loop[0])((ctypes.c_void_p * 4)(*args), (ctypes.c_long * 1)(n), (ctypes.c_long * 4)(*[item] * nargs), loop[1])
    t = c("np_total").value
    w.write(json.dumps({"end": "returned", "total": [t // 65536 if 0 <= t < 2 ** 46 else -1, t % 65536], "bad": min(c("np_bad").value, 9)}) + "\n")


def start(work, name, limit):
    """Runs work in a process of its own."""
    pid = os.fork()
    if pid == 0:
        signal.alarm(limit)
        try:
            with open(name, "w") as w:
                work(w)
        except BaseException as e:
            sys.stderr.write("driver: %r\n" % e)
            os._exit(3)
        os._exit(0)
    return pid


def end(pid, name):
    """The finished observations of a process, and the signal that ended it (0: none)."""
    st = os.waitpid(pid, 0)[1]
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3:
        sys.exit("driver failed")
    lines = [json.loads(l) for l in open(name) if l.endswith("\n")]
    return [o for o in lines if o], os.WTERMSIG(st) if os.WIFSIGNALED(st) else int(st != 0)


with open(out, "w") as tr:
    names = []
    for e in pl["functions"]:
        u = ufunc(e["name"])
        o = {"name": e["name"], "there": int(u is not None), "nin": u[1] if u else 0, "nout": u[2] if u else 0, "kinds": []}
        if u:
            for fmt in "fd":
                if any(l[2] == [CODE[fmt]] * (u[1] + u[2]) for l in u[3]):
                    o["kinds"].append(fmt)
        names.append(o)
    tr.write(json.dumps({"kind": "names", "name": "", "fmt": "", "obs": names}) + "\n")
    todo = []
    for e, o in zip(pl["functions"], names):
        if (o["nin"], o["nout"]) == (e["nin"], e["nout"]):
            u = ufunc(e["name"])
            todo += [(e, fmt, next(l for l in u[3] if l[2] == [CODE[fmt]] * (u[1] + u[2]))) for fmt in o["kinds"]]
    giants = []
    for e, fmt, loop in todo:
        if e["name"] in pl["long"]:
            part = "%s.%s%s" % (out, e["name"], fmt)
            giants.append((e, fmt, part, start(lambda w: giant(fmt, loop, e["nin"] + e["nout"], pl["giant"][0] * 65536 + pl["giant"][1], w), part, 150)))
    for e, fmt, loop in todo:
        layouts = pl["layouts"]["%d%d" % (e["nin"], e["nout"])]
        obs = []
        died = 0
        while len(obs) < len(layouts) and died < 3:
            got, sig = end(start(lambda w: calls(e["name"], fmt, loop, e["nin"], layouts, len(obs), w), out + ".part", 60), out + ".part")
            obs += got
            if sig:
                died += 1
                l = layouts[len(obs)]
                obs.append({"n": l["n"], "steps": l["steps"], "place": l["place"], "end": "died", "moved": 0, "around": 0, "out": []})
        tr.write(json.dumps({"kind": "calls", "name": e["name"], "fmt": fmt, "obs": obs}) + "\n")
        if died == 3:
            break
    for e, fmt, part, pid in giants:
        g, sig = end(pid, part)
        if sig and sig != signal.SIGALRM:       # a loop that is merely slow is not judged
            g = [{"end": "died", "total": [0, 0], "bad": 0}]
        tr.write(json.dumps({"kind": "giant", "name": e["name"], "fmt": fmt, "obs": [o for o in g if o["end"] != "unmapped"]}) + "\n")
