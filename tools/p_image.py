"""C10-C14: ELF images and CrashCatcher dumps against Elf.tla and Dump.tla."""
import json, struct
import vlib
from vlib import THOROUGH, CheckError

M32 = 0xFFFFFFFF
def w(x): return x[0] * 65536 + x[1]
def probes(rs):
    return " ".join("%x:%x" % (a & M32, min(n, 300)) for a, n in rs[:24])
def overlapping(rs):
    rs = sorted((a, n) for a, n in rs if n)
    return any(a + n > b for (a, n), (b, _) in zip(rs, rs[1:]))

def emitted(c, module, env):
    return c.mc(module, env=dict(env, EMIT="1"), workers=vlib.CORES)

# ------------------------------------------------------------------------------------------------ ELF
def loadables(f):
    """(address, size) of what could be loaded, to place probes and drop overlapping segments (not specified)."""
    if len(f) < 52: return []
    phoff, = struct.unpack_from("<I", f, 28); ent, num = struct.unpack_from("<HH", f, 42)
    out = []
    for i in range(min(num, 4000)):
        o = (phoff + i * ent) & M32
        if o + 32 > len(f): break
        t, off, va, pa, fs, ms = struct.unpack_from("<6I", f, o)
        if t == 1 and 0 < fs <= ms and off + fs <= len(f): out.append((pa, fs))
    return out

def elf_case(f):
    rs = loadables(f)
    if overlapping(rs) or any(a + n > 1 << 32 for a, n in rs) or len(rs) > 60: return None
    return "elf %s %s" % (f.hex() or "-", probes(rs + [(0, 8), (0x10000000, 4)]))

def ehdr(phoff, ent, num, **k):
    ident = bytes([0x7F, 0x45, 0x4C, 0x46, k.get("cls", 1), k.get("data", 1), 1]) + bytes(9)
    return ident + struct.pack("<HHIIIIIHHHHHH", k.get("type", 2), 40, 1, k.get("entry", 0x8001), phoff, k.get("shoff", 0), k.get("flags", 0),
                               k.get("ehsize", 52), ent, num, k.get("shent", 40), k.get("shnum", 0), 0)

def random_elf(r):
    n = r.choice([1, 1, 2, 3, 4, 6])
    ent = r.choice([32, 32, 33, 36, 40, 64])
    off = r.choice([52, 52, 53, 56, 60])
    body = bytearray(off + n * ent)
    for i in range(len(body)): body[i] = r.randrange(256)
    data = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 16, 40, 90])))
    total = len(body) + len(data)
    addr = r.choice([0, 0x10000, 0x08000000, 0x1FFF0000])
    segs = []
    for i in range(n):
        fs = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, r.randrange(1, 40)])
        so = r.choice([len(body), r.randrange(0, total + 1), max(0, total - fs), r.randrange(0, total + 1)])
        ms = r.choice([fs, fs, fs + 1, fs + 1000, max(0, fs - 1), 0xFFFFFFFF])
        t = r.choice([1, 1, 1, 1, 0, 2, 0x70000001, 0x01000001])
        if r.random() < 0.08: so = r.choice([M32, M32 - 3, 0x80000000, total + 1])
        if r.random() < 0.05: fs = r.choice([0x7FFFFFFF, 0x80000000, M32]); ms = M32
        if so + fs > total and r.random() < 0.85: so = max(0, total - fs)
        segs.append([t, so, r.randrange(1 << 32), addr, fs, ms, r.randrange(8), r.choice([1, 4, 4096])])
        addr += min(fs, 200) + r.choice([0, 0, 1, 4, 0x1000])
    r.shuffle(segs)
    if r.random() < 0.1 and segs: segs[-1][3] = (1 << 32) - max(1, min(segs[-1][4], 200))
    body[:52] = ehdr(off, ent, n)
    for i, s in enumerate(segs): struct.pack_into("<8I", body, off + i * ent, *[x & M32 for x in s])
    f = bytearray(bytes(body) + data)
    k = r.random()
    if k < 0.25:   # corrupt header bytes
        for _ in range(r.choice([1, 1, 2])):
            p = r.choice([0, 1, 2, 3, 4, 5, 6, 16, 17, 18, 20, 28, 29, 30, 31, 32, 36, 40, 42, 43, 44, 45, 46, 50])
            f[p] = r.choice([0, 1, 2, 3, 31, 32, 255, f[p] ^ 1, r.randrange(256)])
    elif k < 0.4: f = f[:r.randrange(0, len(f) + 1)]
    elif k < 0.45: f += bytes(r.randrange(256) for _ in range(r.randrange(1, 9)))
    return bytes(f)

def elf_histories(c, keep):
    hist = []
    for t in emitted(c, "ElfMC", {"BIG": "1" if THOROUGH else "0"}):
        case = elf_case(bytes(t["d"]))
        if case: hist.append(case)
    n = 1600 if not THOROUGH else 40000
    while n:
        case = elf_case(random_elf(c.rng))
        if case: hist.append(case); n -= 1
    return [[h] for h in hist]

def big_elf(r, k=None):
    """More entries, larger offsets, sizes or entry sizes than 8 or 16 bits hold."""
    k = r.choice("neops") if k is None else k
    n, ent, phoff = {"n": (r.choice([256, 257, 300]), 32, 52), "e": (r.choice([2, 3]), r.choice([256, 288, 0x101, 0x8000, 0x8001]), 52),
                     "o": (3, 32, r.choice([0x10000, 0x10034, 0xFFFF, 0x18001])), "p": (2, 32, 52), "s": (2, r.choice([32, 40]), 52)}[k]
    data = phoff + n * ent
    total = data + (0x10000 + r.choice([1, 200]) if k == "p" else 0x10000 + r.choice([0, 1, 3, 5]) + 64 if k == "s" else 600)
    f = bytearray(r.randbytes(total))
    f[:52] = ehdr(phoff, ent, n)
    a = r.choice([0, 0x08000000])
    rs = []
    for i in range(n):
        far = n > 100 and i not in (0, 3, n - 1) and r.random() < 0.97 or n > 100 and r.random() < 0.3
        fs = r.choice([1, 4, 7, 24])
        so = r.choice([data, total - fs, r.randrange(0, total - fs)])
        if k == "s" and i == 0: fs = total - data - 40; so = data + 4
        if k == "p" and i == n - 1: so = r.choice([total - fs, 0x10000, 0xFFFF, 0x10001])
        if k in "ps" and r.random() < 0.1: so = total - fs + 1
        struct.pack_into("<8I", f, phoff + i * ent, r.choice([0, 0x101, 0x10000]) if far else 1, so, 0, a, fs, fs, 5, 4)
        if not far: rs.append((a, fs)); a += fs + r.choice([0, 1, 8])
    cut = r.choice([0, 0, 0, 1]) if k in "no" else 0
    if k == "n" and r.random() < 0.2: return bytes(f[:phoff + n * ent - r.choice([1, 32, 33])]), rs
    return bytes(f), rs
def big_elf_case(r, k=None):
    f, rs = big_elf(r, k)
    ps = []
    for a, n in rs[:3] + rs[-8:]: ps += [(a, min(n, 70))] + ([(a + n - 40, 44), (a + 0xFFF0, 40), (a + n // 2, 8)] if n > 0x10000 else [])
    return "elf %s %s" % (f.hex(), probes(ps + [(0x10000000, 4)]))

def C10(c):
    c.conform("image", "ImageTrace", elf_histories(c, True) + [[big_elf_case(c.rng, k)] for k in "neops" * (6 if not THOROUGH else 60)])

def C11(c):
    hist = elf_histories(c, False)
    r = c.rng
    hist += [[big_elf_case(r, k)] for k in "neops" * (5 if not THOROUGH else 60)]
    # every prefix of a few valid files, and every byte of the header set to boundary values
    for _ in range(4 if not THOROUGH else 40):
        while True:
            f = random_elf(r)
            if len(f) > 100 and loadables(f): break
        for n in range(len(f)):
            case = elf_case(f[:n])
            if case: hist.append([case])
        for p in range(52):
            for v in (0, 1, 127, 128, 255):
                g = bytearray(f); g[p] = v
                case = elf_case(bytes(g))
                if case: hist.append([case])
    c.conform("image", "ImageTrace", hist)

# ------------------------------------------------------------------------------------------------ dumps
def make_dump(r, ver=None, fp=None, regions=None, sentinel=False, flags=None):
    ver = ver if ver is not None else r.choice([3, 3, 2])
    fp = fp if fp is not None else r.random() < 0.5
    if flags is None: flags = r.choice([0, 0, 2, 0x80000000, 0xFFFFFFFE, 0x100]) | (1 if fp else 0)
    word = lambda: r.choice([0, 1, M32, 0x80000000, 0x0A0D0A0D, r.randrange(1 << 32), r.randrange(1 << 32)])
    b = b"cC" + bytes([ver, 0]) + struct.pack("<I", flags)
    b += struct.pack("<%dI" % (20 if ver == 3 else 18), *[word() for _ in range(20 if ver == 3 else 18)])
    if flags & 1: b += struct.pack("<33I", *[word() for _ in range(33)])
    rs = []
    if regions is None:
        regions = r.choice([0, 1, 1, 2, 3, 5])
    a = r.choice([0, 0x20000000, 0x10000001, 0xE000ED28])
    for _ in range(regions):
        n = r.choice([0, 1, 2, 3, 4, 5, 8, 16, 33])
        top = r.random() < 0.08
        if top: start = ((1 << 32) - n - r.choice([0, 0, 1])) & M32
        else: start = a
        data = bytes(r.choice([0, 255, 13, 10, r.randrange(256)]) for _ in range(n))
        if r.random() < 0.1: data = (b"\xED\x55\xCE\xAC" * 20)[:n]
        b += struct.pack("<II", start, (start + n) & M32) + data
        rs.append((start, n))
        if top: break
        a += n + r.choice([0, 0, 1, 4, 0x1000])
    bounds = len(b)
    if sentinel: b += struct.pack("<I", 0xACCE55ED)
    return b, rs

def noise(r, text, rate=None):
    """New lines anywhere, both halves of a pair included."""
    rate = r.choice([0, 0.02, 0.1, 0.5]) if rate is None else rate
    out = []
    for ch in text:
        while r.random() < rate: out.append(r.choice(["\n", "\r", "\r\n"]))
        out.append(ch)
    if r.random() < 0.3: out.append(r.choice(["\n", "\r\n", "\n\n"]))
    return "".join(out)

def hexify(r, b):
    s = b.hex()
    k = r.choice([0, 1, 2])
    return s if k == 0 else s.upper() if k == 1 else "".join(r.choice([x, x.upper()]) for x in s)

def bin_case(b, rs): return "bin %s %s" % (b.hex() or "-", probes(rs + [(0x30000000, 1)]))
def hex_case(t, rs): return "hex %s %s" % (t.encode("latin-1").hex() or "-", probes(rs + [(0x30000000, 1)]))

LARGE = [63, 64, 65, 127, 128, 192, 255, 256, 257, 512, 1000, 1024, 2048, 4096, 4097, 32768, 65535, 65536, 65537] + ([131072, 100000, 70000] if THOROUGH else [])
def large(r, a, n):
    return struct.pack("<II", a, a + n) + r.randbytes(n)
def spread(rs):
    """Probes at both ends of large regions and in between."""
    out = []
    for a, n in rs:
        if n <= 280: out.append((a, n))
        else: out += [(a, 20), (a + n // 2, 6), (a + n - 70, 70)] + ([(a + 255, 4), (a + 65534, 4)] if n > 65540 else [])
    return out

def big_dump(r):
    """More regions or bytes than 8 or 16 bits count."""
    if r.random() < 0.5: b, rs = make_dump(r, regions=0); n = r.choice([255, 256, 257, 300]); sizes = [r.choice([1, 2, 4]) for _ in range(n)]
    else: b, rs = make_dump(r, regions=0); sizes = r.choice([[40000, 40000, 5], [65536, 65536, 3], [0x10100, 1], [70000], [131072 + 77, 6]])
    a = r.choice([0, 0x20000000])
    for n in sizes:
        b += large(r, a, n); rs.append((a, n)); a += n + r.choice([0, 4])
    return b, rs, a
def far(rs): return rs if len(rs) < 12 else rs[:2] + rs[254:257] + rs[-5:]

def dump_tests(c):
    out = []
    for t in emitted(c, "DumpMC", {"BIG": "1" if THOROUGH else "0"}):
        rs = [(w(x["a"]), x["n"]) for x in t["regs"]]
        out.append((t["kind"], bytes(t["d"]), rs))
    return out

def C12(c):
    r = c.rng
    tests = [t for t in dump_tests(c) if t[0] == "bin"]
    if not THOROUGH: tests = [t for t in tests if len(t[1]) < 10] + r.sample(tests, min(700, len(tests)))
    hist = [[bin_case(b, rs)] for _, b, rs in tests]
    for _ in range(700 if not THOROUGH else 15000):
        b, rs = make_dump(r, sentinel=r.random() < 0.05)
        if r.random() < 0.03 and rs:          # the same region twice: the later bytes win
            a, n = r.choice(rs)
            b += struct.pack("<II", a, (a + n) & M32) + bytes(r.randrange(256) for _ in range(n))
            rs.append((a, n))
        hist.append([bin_case(b, rs)])
    for n in LARGE:
        b, rs = make_dump(r, regions=0)
        b += large(r, 0x20000000, n)
        rs.append((0x20000000, n))
        if r.random() < 0.5: b += large(r, 0x20000000 + n, 5); rs.append((0x20000000 + n, 5))
        hist.append([bin_case(b, spread(rs))])
    for _ in range(10 if not THOROUGH else 80):
        b, rs, a = big_dump(r)
        if r.random() < 0.3: b += struct.pack("<I", 0xACCE55ED)
        hist.append([bin_case(b, spread(far(rs)))])
    # every flag bit on its own
    for bit in range(32):
        b, rs = make_dump(r, ver=r.choice([2, 3]), flags=1 << bit)
        hist.append([bin_case(b, rs)])
    c.conform("image", "ImageTrace", hist)

def C13(c):
    r = c.rng
    tests = [t for t in dump_tests(c) if t[0] == "hex"]
    if not THOROUGH: tests = r.sample(tests, min(900, len(tests)))
    hist = [[hex_case(b.decode("latin-1"), rs)] for _, b, rs in tests]
    for _ in range(500 if not THOROUGH else 12000):
        b, rs = make_dump(r, sentinel=r.random() < 0.08)
        cut = r.random() < 0.15
        if cut: b = b[:r.randrange(len(b) + 1)]
        t = hexify(r, b)
        k = r.random()
        if k < 0.08: t = t[:-1]
        elif k < 0.2 and t:
            p = r.randrange(len(t)); t = t[:p] + chr(r.choice([0, 9, 32, 47, 58, 64, 71, 96, 103, 120, 127, 255])) + t[p + r.choice([0, 1]):]
        t = noise(r, t)
        hist.append([hex_case(t, rs)] + ([bin_case(b, rs)] if k >= 0.2 else []))
    for n in LARGE[::2]:
        b, rs = make_dump(r, regions=0)
        hist.append([hex_case(noise(r, hexify(r, b + large(r, 0x20000000, n)), r.choice([0, 0.001])), spread([(0x20000000, n)]))])
    for _ in range(4 if not THOROUGH else 40):
        b, rs, a = big_dump(r)
        hist.append([hex_case(noise(r, hexify(r, b), r.choice([0, 0.001])), spread(far(rs)))])
    for n in (256, 70000):
        b, rs = make_dump(r, regions=2); t = hexify(r, b); k = r.choice([1, 30, 31, len(t) - 2, len(t)])
        hist.append([hex_case(t[:k] + r.choice(["\n", "\r", "\r\n"]) * n + t[k:], rs)])
    # every foreign character once, and every digit in both positions and cases
    b, rs = make_dump(r, ver=3, fp=False, regions=1)
    base = b.hex()
    for ch in range(256):
        p = r.choice([24, 25, 60, 61, len(base) - 2, len(base) - 1]); p = min(p, len(base) - 1)
        t = base[:p] + chr(ch) + base[p + 1:]
        hist.append([hex_case(t, rs)])
    c.conform("image", "ImageTrace", hist)

def C14(c):
    r = c.rng
    tests = [t for t in dump_tests(c)]
    if not THOROUGH: tests = r.sample([t for t in tests if t[0] == "bin"], 900) + r.sample([t for t in tests if t[0] == "hex"], 200)
    hist = [[(bin_case if k == "bin" else lambda b, rs: hex_case(b.decode("latin-1"), rs))(b, rs)] for k, b, rs in tests]
    for _ in range(12 if not THOROUGH else 300):    # every cut of some random dumps
        b, rs = make_dump(r, regions=r.choice([1, 2, 3]), sentinel=r.random() < 0.3)
        kinds = r.choice(["bin", "bin", "hex"])
        cuts = range(len(b) + 1)
        if not THOROUGH: cuts = sorted(set(list(range(0, 14)) + r.sample(range(len(b)), min(30, len(b))) + list(range(max(0, len(b) - 40), len(b)))))
        for n in cuts:
            hist.append([bin_case(b[:n], rs)] if kinds == "bin" else [hex_case(noise(r, hexify(r, b[:n]), 0.05), rs)])
    for n in LARGE:                                 # the end of larger regions
        b, rs = make_dump(r, regions=r.choice([0, 1]))
        b += large(r, 0x28000000, n); rs.append((0x28000000, n))
        for cut in sorted({1, 2, r.randrange(1, min(n, 64)), min(n, 64) - 1, min(n, 64), min(n, 64) + 1, n // 2, n}) if n < 5000 else [1, 64]:
            hist.append([(bin_case if r.random() < 0.8 or n > 5000 else lambda x, y: hex_case(noise(r, hexify(r, x), 0.01), y))(b[:len(b) - cut], spread(rs))])
    for _ in range(8 if not THOROUGH else 60):
        b, rs, a = big_dump(r)
        tail = r.choice([b"\xED\x55\xCE\xAC", b"\xED\x55\xCE", struct.pack("<II", a, a + 6) + b"12345", struct.pack("<II", a, a + 70000) + r.randbytes(69999), b"\0" * 7])
        b = b + tail if r.random() < 0.7 else b[:-r.choice([1, 2])]
        hist.append([bin_case(b, spread(far(rs)))])
    for _ in range(300 if not THOROUGH else 5000):  # forged signatures, absurd region headers, trailing rubbish
        b, rs = make_dump(r, regions=r.choice([0, 1, 2]))
        k = r.random()
        if k < 0.3:
            f = bytearray(b); f[r.randrange(4)] = r.choice([0, 1, 2, 3, 4, 0x43, 0x63, 255, r.randrange(256)]); b = bytes(f)
        elif k < 0.6:
            start, end = r.choice([(0x50000000, 0x4FFFFFFF), (0x50000000, 0x50000000 + r.randrange(5, 70000)), (1, 0), (0x50000000, 0xFFFFFFFF), (0x50000000, 0x53FFFFF0)])
            b += struct.pack("<II", start, end) + bytes(r.randrange(0, 5))
        elif k < 0.8: b += r.choice([b"\xED\x55\xCE\xAC", b"\xED\x55\xCE", b"\xED\x55\xCE\xAD", b"\xAC\xCE\x55\xED", b"\xED\x55\xCE\xAC\x00", b"\xED\x55\xCE\xAC\xED\x55\xCE\xAC"])
        else: b += bytes(r.randrange(256) for _ in range(r.randrange(1, 8)))
        hist.append([bin_case(b, rs)] if r.random() < 0.7 else [hex_case(noise(r, hexify(r, b)), rs)])
    c.conform("image", "ImageTrace", hist)

def replay(c, rep):
    c.conform(rep["harness"], rep["spec"], [rep["history"]], env=rep.get("env"), args=rep.get("args", []))
