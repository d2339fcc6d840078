"""C01-C09: the memory simulator against MemorySim.tla."""
import json, os
import vlib
from vlib import THOROUGH, hexs, w2hex, SPEC, CheckError

def cmd(op):
    """An operation record of the specification as a harness command."""
    e = op["ev"]
    if e == "create": return "create %s %s" % (w2hex(op["a"]), w2hex(op["s"]))
    if e == "alias": return "alias %s %s %s" % (w2hex(op["a"]), w2hex(op["r"]), w2hex(op["s"]))
    if e in ("ro", "cnt"): return "%s %s" % (e, w2hex(op["a"]))
    if e in ("rd", "mapr"): return "%s %s %d" % (e, w2hex(op["a"]), op["n"])
    if e in ("wr", "mapw", "load"): return "%s %s %s" % (e, w2hex(op["a"]), hexs(op["d"]))
    if e == "flash": return "flash %s" % hexs(op["d"])
    if e in ("sbp", "cbp"): return "%s %s %x" % (e, w2hex(op["a"]), op["n"])
    if e in ("swp", "cwp"): return "%s %s %x %d" % (e, w2hex(op["a"]), op["n"], op["t"])
    return e

def model(c, prop):
    """Exhaustive bounded model: properties on the specification, and one conformance test per transition."""
    c.mc("MemMC", env={"PROFILE": prop, "MODE": "check"}, workers=vlib.CORES)
    out, rc = vlib.tlc("MemMC", env={"PROFILE": prop, "MODE": "emit"}, tmp=c.tmp)
    if rc: raise CheckError("MemMC emit: " + out[-2000:])
    tests = [json.loads(json.loads(x)[5:]) for x in out.splitlines() if x.startswith('"TEST ')]
    probes = [json.loads(json.loads(x)[7:]) for x in out.splitlines() if x.startswith('"PROBES ')][0]
    return [[cmd(o) for o in t] for t in tests], [cmd(o) for o in probes]

M32 = 0xFFFFFFFF
class Gen:
    """Boundary-heavy random histories over a handful of regions."""
    def __init__(self, rng, overlap=True):
        self.r = rng
        self.overlap = overlap
        self.regs = []                     # (base, size, kind)
    def new_base(self):
        r = self.r
        k = r.random()
        if self.regs and k < 0.45:         # adjacent to, overlapping with or near an existing region
            b, s, _ = r.choice(self.regs)
            return max(0, min(M32 - 16, r.choice([b + s, b + s + 1, b + s - 1, b - 8, b + s + 2, b])))
        if k < 0.6: return r.choice([0, 1, 2, 4])
        if k < 0.75: return 0x100000000 - r.choice([1, 2, 3, 4, 6, 8, 16])
        if k < 0.85: return r.choice([0x7FFFFFFC, 0x80000000, 0x7FFFFFFE, 0xFFFC, 0x10000, 0xFFFE])
        return r.choice([0x10000000, 0x20000000, 0x1000])
    def create(self, maxsize=24):
        b = self.new_base()
        s = self.r.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 16, maxsize])
        s = min(s, 0x100000000 - b)
        if not self.overlap:
            while any(b < x + y and x < b + s for x, y, _ in self.regs):
                b = self.r.randrange(1 << 28) * 16
        self.regs.append((b, s, "r"))
        return "create %x %x" % (b, s)
    def alias(self):
        r = self.r
        b = self.new_base()
        if r.random() < 0.12:
            return "alias %x %x %x" % (b, self.addr(), r.choice([1, 4, 9]))      # may be unmapped
        tb, ts, _ = r.choice(self.regs)
        off = r.choice([0, 0, 1, 2, ts - 1, ts // 2, r.randrange(ts)])
        off = min(max(off, 0), ts - 1)
        s = r.choice([1, 2, 3, 4, ts, ts - off, ts - off + 1, 64, 0x1000])
        s = max(1, min(s, 0x100000000 - b))
        self.regs.append((b, max(1, min(s, ts - off)), "a"))
        return "alias %x %x %x" % (b, tb + off, s)
    def addr(self):
        r = self.r
        if not self.regs or r.random() < 0.03:
            return r.choice([0, 1, 3, 4, M32, M32 - 1, M32 - 3, 0x80000000, r.randrange(1 << 32)])
        b, s, _ = r.choice(self.regs)
        k = r.random()
        if k < 0.5: a = b + r.randrange(s)
        elif k < 0.75: a = b + s + r.randrange(-5, 3)
        else: a = b + r.randrange(-5, 4)
        return a & M32
    def inside(self, n):
        """An address where n bytes usually fit."""
        c = [(b, s) for b, s, _ in self.regs if s >= n]
        if not c: return self.addr()
        b, s = self.r.choice(c)
        return b + self.r.randrange(s - n + 1)
    def data(self, n): return bytes(self.r.choice([0, 1, 0x7F, 0x80, 0xFF, self.r.randrange(256)]) for _ in range(n))
    def rd(self, near=0.5):
        n = self.r.choice([1, 2, 4])
        return "rd %x %d" % (self.inside(n) if self.r.random() < near else self.addr(), n)
    def wr(self, near=0.5):
        n = self.r.choice([1, 2, 4])
        return "wr %x %s" % (self.inside(n) if self.r.random() < near else self.addr(), hexs(self.data(n)))
    def dump(self, limit=64):
        """Read every mapped byte (and the ones just outside)."""
        seen, out = set(), []
        for b, s, _ in self.regs:
            for a in list(range(b - 1, b + min(s, limit) + 1)):
                if 0 <= a <= M32 and a not in seen:
                    seen.add(a); out.append("rd %x 1" % a)
        return out

def edges(g):
    """Every width at every edge of every region."""
    out = []
    for b, s, _ in g.regs:
        for a in sorted(set(x & M32 for e in (b, b + s) for x in range(e - 4, e + 2))):
            for n in (1, 2, 4): out.append("rd %x %d" % (a, n))
    return out

def h01(r):
    g = Gen(r); out = []
    for _ in range(r.randrange(1, 5)): out.append(g.create())
    for _ in range(r.randrange(0, 3)): out.append(g.alias())
    ops = edges(g)
    r.shuffle(ops)
    out += ops[:40]
    for _ in range(12):
        k = r.random(); a = g.addr(); n = r.choice([1, 2, 4])
        if k < 0.5: out.append("wr %x %s" % (a, hexs(g.data(n))))
        elif k < 0.7: out.append("mapr %x %d" % (a, r.choice([1, 3, 4, 7, 8, 16])))
        elif k < 0.85: out.append("mapw %x %s" % (a, hexs(g.data(r.choice([1, 2, 4, 5, 9])))))
        else: out.append("rd %x %d" % (a, n))
    return out + g.dump(24)

def h02(r):
    g = Gen(r, False); out = [g.create(r.choice([16, 24, 40, 64])) for _ in range(r.randrange(1, 4))]
    for _ in range(30):
        k = r.random()
        if k < 0.45: out.append(g.wr(0.9))
        elif k < 0.75: out.append(g.rd(0.9))
        elif k < 0.85:
            b, s, _ = r.choice(g.regs); o = r.randrange(s); n = r.randrange(1, s - o + 1)
            out.append("load %x %s" % (b + o, hexs(g.data(n))))
        elif k < 0.93:
            b, s, _ = r.choice(g.regs); o = r.randrange(s); n = r.randrange(1, s - o + 1)
            out.append("mapw %x %s" % (b + o, hexs(g.data(n))))
        else:
            b, s, _ = r.choice(g.regs)
            out.append("mapr %x %d" % (b, s))
    return out + g.dump(80)

def h03(r):
    g = Gen(r, False); out = [g.create() for _ in range(r.randrange(1, 4))]
    ro = False
    for _ in range(24):
        k = r.random()
        if k < 0.15: out.append(g.alias())
        elif k < 0.25: out.append("ro %x" % g.inside(1)); ro = True
        elif k < 0.65: out.append(g.wr(0.85))
        elif k < 0.8: n = r.choice([1, 2, 3, 4, 5, 8, 9, 12, 16, 24]); out.append("mapw %x %s" % (g.inside(n), hexs(g.data(n))))
        elif k < 0.9:
            b, s, kind = r.choice(g.regs); o = r.randrange(s); n = r.randrange(1, min(9, s - o + 1) if s - o >= 1 else 2)
            out.append("load %x %s" % (b + o, hexs(g.data(min(n, s - o)))) if kind == "r" else g.rd(0.9))
        else: out.append("rd %x %d" % (g.inside(1), r.choice([1, 4])))
    if not ro: out.append("ro %x" % g.inside(1)); out += [g.wr(0.9) for _ in range(6)]
    return out + g.dump(24)

def h04(r):
    g = Gen(r); out = [g.create() for _ in range(r.randrange(1, 3))]
    out.append(g.alias())
    for _ in range(26):
        k = r.random()
        if k < 0.2: out.append(g.alias())
        elif k < 0.26: out.append("ro %x" % g.inside(1))
        elif k < 0.3: out.append("sbp %x %x" % (g.inside(2), 2))
        elif k < 0.36: out.append("swp %x %x %d" % (g.inside(2), r.choice([1, 2]), r.choice([1, 2, 3])))
        elif k < 0.4: out.append("cbp %x %x" % (g.inside(2), 2))
        elif k < 0.65: out.append(g.wr(0.8))
        elif k < 0.9: out.append(g.rd(0.8))
        elif k < 0.95: out.append("mapr %x %d" % (g.inside(3), 3))
        else: out.append("wpe")
    return out + g.dump(32) + edges(g)[:30]

def h05(r):
    g = Gen(r)
    b = r.choice([0, 0x10000000, 0xFFFFFFF0, 0xFFFFFFF0, 0x7FFFFFF8])
    out = ["create %x 10" % b]
    g.regs = [(b, 16, "r")]
    if r.random() < 0.3: out.append("create %x 8" % (0x40000000)); g.regs.append((0x40000000, 8, "r"))
    if r.random() < 0.3:
        o = r.choice([0, 2, 8]); out.append("alias 50000000 %x 8" % (b + o)); g.regs.append((0x50000000, 8, "a"))
    pts = []
    for _ in range(34):
        k = r.random()
        if k < 0.3 or (k < 0.45 and not pts):
            n = r.choice([1, 2, 2, 4, 4, 6, 8, 16])
            a = g.inside(n) if r.random() < 0.93 else g.addr()
            p = ("bp %x %x" % (a, n)) if r.random() < 0.4 else ("wp %x %x %d" % (a, n, r.choice([1, 2, 3])))
            pts.append(p); out.append("s" + p)
        elif k < 0.36: out.append("s" + r.choice(pts))
        elif k < 0.5 and pts: out.append("c" + r.choice(pts))
        elif k < 0.53: out.append("cwp %x %x %d" % (g.inside(4), r.choice([2, 4]), r.choice([1, 2, 3])))
        elif k < 0.7: out.append("rd %x 2" % g.inside(2))
        elif k < 0.8: out.append(g.rd(0.9))
        elif k < 0.92: out.append(g.wr(0.9))
        elif k < 0.94: out.append("mapr %x 4" % g.inside(4))
        else: out.append("wpe")
        if r.random() < 0.3: out.append("wpe")
    for a in range(b, b + 15):
        out.append("rd %x 2" % a); out.append("wpe")
    for a in range(b, b + 16):
        out.append("wr %x 55" % a); out.append("wpe"); out.append("rd %x 1" % a); out.append("wpe")
    for a in range(b, b + 13): out.append("rd %x 4" % a); out.append("wpe")
    return out

def h06(r):
    g = Gen(r); out = []
    n = r.choice([0, 1, 2, 3, 5, 8, 12, 30 if THOROUGH else 18])
    for _ in range(n):
        k = r.random()
        b = r.choice([0, 0xF, 0x10, 0xFFFFFFF, 0x10000000, 0xFFFFFFFF, 0xF0000000, r.randrange(1 << 32), r.randrange(1 << 32) >> r.randrange(32)])
        if k < 0.5 or not g.regs:
            s = r.choice([0, 1, 0xF, 0x10, 0x11, 0xFFFF, 0x10000, 0x100, r.randrange(1, 1 << r.randrange(1, 21))])
            s = min(s, 0x100000000 - b)
            out.append("create %x %x" % (b, s))
            if s: g.regs.append((b, s, "r"))
        elif k < 0.8:
            tb, ts, _ = r.choice(g.regs); o = r.randrange(ts)
            s = r.choice([0, 1, ts, 0x10, 0x100000, r.randrange(1, 4096)])
            s = min(s, 0x100000000 - b)
            out.append("alias %x %x %x" % (b, tb + o, s))
        else: out.append("ro %x" % g.inside(1))
        if r.random() < 0.25: out.append("xml")
    if r.random() < 0.08:              # the longest entries: large read-only memory, shown again and again
        b = r.choice([0x10000000, 0x80000000, 0xFE000000, 0xF0000000]); s = r.choice([0x1000000, 0x1000001, 0x100001, 0xFFFFFF])
        if r.random() < 0.8: out = []
        out += ["create %x %x" % (b, s), "ro %x" % (b + s - 1)]
        out += ["alias %x %x %x" % (r.choice([0xF0000000, 0x11111111, 0xFE000000]) , b, r.choice([s, s, s + 1, 0x1000000])) for _ in range(r.choice([1, 2, 3, 6, 20]))]
    return out + ["xml"] + (["xml", "uninit", "xml"] if r.random() < 0.5 else []) + (g.dump(3) if r.random() < 0.2 else [])

def h07(r):
    g = Gen(r); out = []
    for _ in range(r.randrange(1, 4)):
        b = r.choice([0, 0x10000, 0x20000000, 0xFFFFFFF0, 0x7FFFFFF0, 16, 32, 1, 0x20000001, 0x10003, 0xFFFFFFF1]); s = r.choice([2, 3, 4, 5, 8, 12, 15 if b == 0xFFFFFFF1 else 16])
        if all(b + s <= x or x + y <= b for x, y, _ in g.regs):
            out.append("create %x %x" % (b, s)); g.regs.append((b, s, "r"))
    base = list(g.regs)
    pend = [b for b, s, _ in base if r.random() < 0.8]
    for _ in range(40):
        k = r.random()
        if pend and k < 0.12: out.append("ro %x" % pend.pop())
        elif k < 0.18: out.append(g.alias())
        elif k < 0.55: out.append("rd %x 2" % g.inside(2))
        elif k < 0.62: out.append(g.rd(0.9))
        elif k < 0.7: out.append(g.wr(0.9))
        elif k < 0.76:
            b, s, _ = r.choice(base); out.append("load %x %s" % (b, hexs(g.data(s))))
        elif k < 0.8: out.append("mapr %x %d" % (g.inside(2), r.choice([1, 2, 2, 2, 3, 4])))
        else: out.append("cnt %x" % (g.inside(2) if r.random() < 0.8 else g.addr()))
    if base and r.random() < 0.3: out += ["sbp %x 2" % base[0][0], "rd %x 2" % base[0][0], "rd %x 2" % base[0][0]]
    for b, s, _ in g.regs:
        out += ["cnt %x" % a for a in range(b, min(b + s + 1, 1 << 32))]
    return out

def h08(r):
    g = Gen(r); out = []
    slots = iter(range(0x1000, 0x7000000, 0x1000))
    ro = set()
    def maybe(op):
        if r.random() < 0.6:
            return ["fail %d" % r.choice([1, 1, 1, 2, 2, 3]), op, "nofail"] + ([op] if r.random() < 0.75 else [])
        return [op]
    flash = False
    for _ in range(r.randrange(4, 10)):
        k = r.random()
        plain = [(b, s) for b, s, kind in g.regs if kind == "r"]
        if k < 0.25 or not plain:
            b = next(slots); s = r.choice([1, 4, 6, 16]); g.regs.append((b, s, "r")); out += maybe("create %x %x" % (b, s))
        elif k < 0.4:
            b = next(slots); tb, ts = r.choice(plain); g.regs.append((b, ts, "a")); out += maybe("alias %x %x %x" % (b, tb, ts))
        elif k < 0.55:
            b, s = r.choice(plain)
            if b not in ro: ro.add(b); out += maybe("ro %x" % b)
        elif k < 0.68: out += maybe("%s %x %x" % ("sbp", g.inside(2), 2))
        elif k < 0.8: out += maybe("swp %x %x %d" % (g.inside(2), 2, r.choice([1, 2, 3])))
        elif k < 0.93: out += maybe("xml")
        elif not flash:
            flash = True
            img = (0x00100010).to_bytes(4, "little") + g.data(r.choice([0, 1, 4, 7]))
            g.regs.append((0, len(img), "f")); g.regs.append((0, 0x10, "x")); out += maybe("flash " + hexs(img))
        if r.random() < 0.5: out.append(g.wr(0.9))
    g.regs = [x for x in g.regs if x[2] != "x"]
    out += g.dump(20) + [g.rd(0.9) for _ in range(6)] + ["wpe"] + [g.wr(0.9) for _ in range(4)] + ["wpe"]
    for b, s, kind in g.regs:
        if s >= 2: out.append("cnt %x" % b)
    return out + ["xml", "uninit"] + (["xml", "uninit"] if r.random() < 0.3 else [])

def h09(r):
    out = []
    n = r.choice([0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 31, 64, 65])
    sp = r.choice([0x10000010, 0x20000000, 0x10000001, 0, 4, 0xF0000008, 0xFFFFFFF0, 0x20004000, 0x100, 0x2FFFFFFF, 0x10008001, 0x1000000, 0x10000000, 0x30000000, 0xF0000000, 0xE0000000])
    if THOROUGH and r.random() < 0.3: sp = r.randrange(16) << 28 | r.randrange(1 << 18)
    img = (sp.to_bytes(4, "little") + bytes(r.randrange(256) for _ in range(64)))[:n]
    if r.random() < 0.35: out += ["fail %d" % r.choice([1, 2, 3, 4, 5]), "flash " + hexs(img), "nofail", "xml"]
    if r.random() < 0.25: out += ["create 77770000 4", "wr 77770000 01020304"] if not out else []
    out += ["flash " + hexs(img), "xml"]
    probe = list(range(0, n + 2))
    base = sp & 0xF0000000
    for a in {base, base + 1, base + 3, sp - 4, sp - 1, sp, sp + 1, base - 1}:
        if 0 <= a <= M32: probe.append(a)
    out += ["rd %x 1" % a for a in probe]
    out += ["rd %x %d" % (a & M32, w) for a in (0, n - 2, n - 4, sp - 4, sp - 2, sp - 3) for w in (2, 4)]
    out += ["wr %x 5a" % (a & M32) for a in (0, n - 1, n, base, sp - 1, sp)]
    out += ["rd %x 1" % a for a in probe[:8]] + ["rd %x 1" % ((sp - 1) & M32), "rd %x 1" % base]
    out += ["mapw 0 01", "cnt 0"] + ["rd 77770000 4"]
    return out + ["uninit"]

def flash_overlap(cmds):
    """With RAM starting at 0 the two regions overlap; still well defined (first created wins)."""
    return cmds

# ---- scale: sizes, offsets and numbers beyond what 8, 16 or 24 bits hold
EDGE = (0, 1, 0xFE, 0x100, 0xFFFC, 0xFFFE, 0xFFFF, 0x10000, 0x10002, 0x18000, 0x1FFFE, 0x20000, 0x20004, 0xFFFFFE, 0x1000000)
def bigregs(r, ro=False):
    """A few regions larger than 64 KB (now and then 16 MB) and an alias into the far part of each."""
    out, hot, regs = [], [], []
    b = r.choice([0, 0x10000, 0x20000000, 0x8000])
    for _ in range(r.choice([1, 1, 2])):
        s = r.choice([0x10000, 0x10001, 0x10004, 0x20002, 0x20006, 0x30000] + ([0x1000000, 0x1000006] if r.random() < 0.25 else []))
        out.append("create %x %x" % (b, s))
        offs = sorted({x + d for x in EDGE + (s - 4, s - 1) for d in (0, 1, 2) if x + d < s + 2})
        hot += [(b + o) & M32 for o in offs]
        regs.append((b, s))
        if r.random() < 0.8:
            o = r.choice([x for x in (0x10000, 0xFFFF, 0x10002, 0xFF00, 0x8000, 4) if x < s])
            n = r.choice([16, s - o, 0x10000, 0x10001, 0x18000])
            ab = r.choice([0x60000000, 0x5FFFFFF8]) + len(regs) * 0x4000000
            out.append("alias %x %x %x" % (ab, b + o, n))
            n = min(n, s - o)
            hot += [ab + x for x in (0, 1, 6, 0xFFFE, 0x10000, 0x10001, n - 2, n - 1, n) if 0 <= x <= n]
        b += s + r.choice([0, 0, 2, 0x10000])
    if ro: out += ["ro %x" % r.choice(hot[:3]) for _ in range(1)]
    return out, hot, regs

def big_access(r, hot, k):
    out = []
    for _ in range(k):
        a = r.choice(hot); n = r.choice([1, 2, 4]); q = r.random()
        d = hexs(bytes(r.randrange(1, 256) for _ in range(n)))
        out.append("rd %x %d" % (a, n) if q < 0.3 else "wr %x %s" % (a, d) if q < 0.8 else
                   "mapw %x %s" % (a, d) if q < 0.87 else "load %x %s" % (a, d[:2]) if q < 0.93 else "mapr %x %d" % (a, r.choice([1, 3, 4, 8])))
    return out

def many(r, n):
    """n little regions in a row, some of them aliases, addresses out of order."""
    out, regs = [], []
    for k in r.sample(range(n), n):
        b = 0x30000000 + k * 8
        if regs and r.random() < 0.3:
            t = r.choice([x for x in regs if x[2] == "r"] or [regs[0]]); out.append("alias %x %x 8" % (b, t[0])); regs.append((b, 8, "a"))
        else: out.append("create %x 8" % b); regs.append((b, 8, "r"))
    return out, regs

def big01(r):
    if r.random() < 0.3:
        out, regs = many(r, r.choice([257, 300]))
        hot = [b + o for b, s, _ in regs[-8:] + regs[:4] + regs[250:260] for o in (0, 3, 6, 8)]
        return out + big_access(r, hot, 60)
    out, hot, regs = bigregs(r)
    return out + ["rd %x %d" % (a, n) for a in hot for n in (1, 2, 4)][:90] + big_access(r, hot, 40)
def big02(r):
    out, hot, regs = bigregs(r)
    return out + big_access(r, hot, 70) + ["rd %x 1" % a for a in hot]
def big03(r):
    out, hot, regs = bigregs(r)
    out += big_access(r, hot, 15) + ["ro %x" % r.choice(hot)]
    return out + big_access(r, hot, 50) + ["rd %x 1" % a for a in hot]
def big04(r):
    out, hot, regs = bigregs(r)
    for _ in range(3):
        b, s = r.choice(regs); o = r.choice([x for x in EDGE if x < s])
        ab = r.choice([0x70000000, 0x7F000000, 0xFF000000]); n = r.choice([8, 0x10000, 0x10002, s])
        out.append("alias %x %x %x" % (ab, b + o, n)); n = min(n, s - o)
        hot += [ab + x for x in (0, 1, 0x8000, 0xFFFE, 0x10000, n - 4, n - 1, n) if 0 <= x <= n]
    return out + big_access(r, hot, 70) + ["rd %x 1" % a for a in hot]
def big05(r):
    k = r.random()
    if k < 0.45:                       # more points than 8 bits count
        n = r.choice([256, 257, 300])
        out = ["create 1000 800"]; pts = []
        for j in r.sample(range(1000), n):
            pts.append(("bp %x 2" % (0x1000 + 2 * j)) if r.random() < 0.3 else "wp %x 2 %d" % (0x1000 + 2 * j, r.choice([1, 2, 3])))
        out += ["s" + p for p in pts] + ["s" + p for p in r.sample(pts, 5)]
        for p in r.sample(pts, 12): out.append("c" + p)
        for p in r.sample(pts, 30) + pts[-6:] + pts[:3]:
            a = p.split()[1]; out += ["rd %s 2" % a, "wpe", "wr %s 11" % a, "wpe"]
        return out
    if k < 0.7:                        # a point met very often before it is asked about
        n = r.choice([255, 256, 65535, 65536, 65536, 131072]); t = r.choice([1, 2, 3])
        return ["create 1000 10", "swp 1004 4 %d" % t, "wpe", "rdn 1004 4 %d" % n, "wpe", "wrn 1005 aa %d" % n, "wpe", "rdn 1006 2 %d" % n,
                "rd 1008 4", "wpe", "wpe", "sbp 1004 2", "rdn 1004 2 %d" % min(n, 600), "wpe", "rd 1004 2"]
    out, hot, regs = bigregs(r); pts = []
    for _ in range(8):
        a = r.choice(hot); n = r.choice([1, 2, 4, 2, 0x10000, 0x10002])
        pts.append(("bp %x %x" % (a, n)) if r.random() < 0.4 else "wp %x %x %d" % (a, n, r.choice([1, 2, 3])))
    out += ["s" + p for p in pts]
    for a in hot: out += ["rd %x 2" % a, "wpe", "wr %x 22" % a, "wpe"]
    for p in pts[:4]: out.append("c" + p)
    for a in r.sample(hot, min(12, len(hot))): out += ["rd %x 2" % a, "wpe", "wr %x 22" % a, "wpe"]
    return out
def big06(r):
    out, regs = many(r, r.choice([255, 256, 257, 300]))
    out += ["ro %x" % r.choice(regs)[0] for _ in range(r.choice([0, 3, 200]))]
    return out + ["xml", "rd 30000000 1", "create 10 4", "xml"]
def big07(r):
    if r.random() < 0.4:
        n = r.choice([255, 256, 65535, 65536, 65537, 70000])
        out = ["create 1000 10", "alias 8000 1004 8", "ro 1000", "rdn 1004 2 %d" % n, "cnt 1004", "rd 1004 2", "cnt 1004", "rd 1006 2", "cnt 1006",
               "rdn 8000 2 %d" % r.choice([1, 256, 65536]), "cnt 1004", "cnt 8000", "rdn 1006 4 300", "rdn 1006 1 300", "cnt 1006", "cnt 1002"]
        return out
    out, hot, regs = bigregs(r)
    for b, s in regs: out.append("ro %x" % b)
    for _ in range(50):
        a = r.choice(hot); out.append(r.choice(["rd %x 2", "rd %x 2", "mapr %x 2", "rdn %x 2 300", "rd %x 4"]) % a)
    return out + ["cnt %x" % a for a in hot]
def big08(r):
    out = ["create 1000 800"]; pts = []
    n = r.choice([30, 255, 256, 257])
    for j in range(n):
        out.append("swp %x 2 3" % (0x1000 + 2 * j))
    for k in range(4):
        p = "swp %x 2 1" % (0x1600 + 8 * k); out += ["fail %d" % r.choice([1, 1, 2]), p, "nofail", "rd 1600 2", "wpe", p]
    for j in r.sample(range(n), 8) + [0, n - 1]: out += ["rd %x 2" % (0x1000 + 2 * j), "wpe"]
    m, regs = many(r, r.choice([20, 260]))
    out += m + ["fail 1", "xml", "nofail", "fail 2", "create 99990000 4", "nofail", "xml", "uninit"]
    return out
def big09(r):
    n = r.choice([0xFFFF, 0x10000, 0x10001, 0x10003, 0x12345, 0x20002])
    sp = r.choice([0x10020000, 0x20018000, 0x20010001, 0x10100000])
    img = sp.to_bytes(4, "little") + bytes(r.randrange(256) for _ in range(n - 4))
    probe = [a for a in (0, 3, 0xFFFB, 0xFFFC, 0xFFFF, 0x10000, 0x10001, 0x1FFFF, n - 5, n - 4, n - 3, n - 2, n - 1, n) if a <= n]
    out = ["flash " + hexs(img), "xml"] + ["rd %x %d" % (a, w) for a in probe for w in (1, 2, 4)] + ["cnt %x" % a for a in probe]
    ram = [sp & 0xF0000000, (sp & 0xF0000000) + 0xFFFF, (sp & 0xF0000000) + 0x10000, sp - 4, sp - 1, sp]
    out += ["wr %x %s" % (a, d) for a in ram for d in ("a1", "b1b2c3d4")] + ["rd %x 1" % a for a in ram] + ["wr %x 77" % a for a in probe]
    return out + ["uninit"]
BIG = {"C01": 40, "C02": 40, "C03": 32, "C04": 32, "C05": 40, "C06": 8, "C07": 40, "C08": 16, "C09": 8}

COUNT = {"C01": 260, "C02": 260, "C03": 300, "C04": 300, "C05": 220, "C06": 300, "C07": 260, "C08": 420, "C09": 420}
MAXMC = {"C01": 175, "C02": 290, "C03": 520, "C04": 390, "C05": 1100, "C06": 1200, "C07": 900}

def run(c, prop, gen):
    c.build.harness("memsim")
    hist = []
    if prop in MAXMC:
        tests, probes = model(c, prop)
        lim = MAXMC[prop] if not THOROUGH else 10 ** 9
        if len(tests) > lim: tests = c.rng.sample(tests, lim)
        for t in tests:
            p = list(probes)
            c.rng.shuffle(p)
            if prop == "C05": p = [x for q in p[:22] for x in (q, "wpe")]
            if prop == "C01": p = p[:90] if not THOROUGH else p
            hist.append(t + p)
    else:
        c.mc("MemMC", env={"PROFILE": "C06", "MODE": "check"}, workers=vlib.CORES)
    n = COUNT[prop] * (20 if THOROUGH else 1)
    hist += [gen(c.rng) for _ in range(n)]
    hist += [globals()["big" + prop[1:]](c.rng) for _ in range(BIG[prop] * (4 if THOROUGH else 1))]
    c.conform("memsim", "MemTrace", hist)

for _p, _g in (("C01", h01), ("C02", h02), ("C03", h03), ("C04", h04), ("C05", h05), ("C06", h06), ("C07", h07), ("C08", h08), ("C09", h09)):
    globals()[_p] = (lambda p, g: lambda c: run(c, p, g))(_p, _g)

def replay(c, rep):
    c.conform(rep["harness"], rep["spec"], [rep["history"]], env=rep.get("env"), args=rep.get("args", []))
