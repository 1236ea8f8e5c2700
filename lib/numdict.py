"""Interesting floating-point arguments: every numeric literal that occurs in
the current headers (so that any threshold the code compares against is
straddled), plus the breakpoints the specification knows about."""
import re, struct, glob, os, math, sys

def d2b(v): return struct.unpack('<Q', struct.pack('<d', v))[0]
def f2b(v):
    try: return struct.unpack('<I', struct.pack('<f', v))[0]
    except OverflowError: return None

def literals(repo):
    vals = set()
    for p in sorted(glob.glob(os.path.join(repo, 'include', '*.h'))):
        t = open(p, errors='replace').read()
        for m in re.finditer(r'(?<![\w.])((?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)[fFlLuU]*(?!\w)', t):
            try: v = float(m.group(1))
            except ValueError: continue
            if 0 < v < 1e308: vals.add(v)
        for m in re.finditer(r'0x([0-9a-fA-F]+)', t):
            b = int(m.group(1), 16)
            if b < 2**32:
                v = struct.unpack('<f', struct.pack('<I', b))[0]
                if v == v and 0 < abs(v) < 3e38: vals.add(abs(v))
            if 2**33 < b < 2**64:
                v = struct.unpack('<d', struct.pack('<Q', b))[0]
                if v == v and 0 < abs(v) < 1e308: vals.add(abs(v))
    return vals

def build(repo, out):
    vals = literals(repo)
    ext = set()
    for v in vals:
        for w in (v, 1 / v if v > 1e-300 else v, math.sqrt(v), v * v if v < 1e150 else v, 2 * v if v < 1e307 else v, v / 2, 1 - v, 1 + v, math.log(v) if v > 0 else v, math.exp(v) if v < 700 else v):
            if w == w and abs(w) < 1.7e308 and w != 0: ext.add(abs(w))
    dense = set(ext)
    for e in range(-1074, 1024): dense.add(math.ldexp(1.0, e))
    piq = 0.78539816339744830961566
    near = [k * piq for k in range(1, 6367)]
    ln2 = 0.69314718055994530942
    near += [abs(k * ln2 / 2) for k in range(1, 2060)]
    near += [float(k) for k in range(1, 5001)]
    near += [k / 64.0 for k in range(1, 1300)]
    near += [k / 10.0 for k in range(1, 1000)] + [k / 100.0 for k in range(1, 300)] + [k + 0.5 for k in range(0, 1000)]
    near += [m * 10.0 ** e for e in range(-300, 300, 1) for m in (1, 2, 5)]
    D, F = set(), set()
    def add(v, r):
        b = d2b(v)
        for i in range(-r, r + 1):
            if 0 <= b + i < 0x7ff0000000000000: D.add(b + i); D.add((b + i) | 1 << 63)
        b = f2b(v)
        if b is not None and b < 0x7f800000:
            for i in range(-r, r + 1):
                if 0 <= b + i < 0x7f800000: F.add(b + i); F.add((b + i) | 1 << 31)
    for v in dense: add(v, 8)
    for v in near: add(v, 2)
    for v in range(0, 40): D.add(v); D.add(v | 1 << 63); F.add(v); F.add(v | 1 << 31)
    with open(out, 'w') as f:
        for b in sorted(D): f.write('d %x\n' % b)
        for b in sorted(F): f.write('f %x\n' % b)
    return len(D), len(F), len(vals)

if __name__ == '__main__': print(build(sys.argv[1], sys.argv[2]))
