"""C20-C24: what GDB is told about the crash, against Platform.tla."""
import json
import vlib
from vlib import THOROUGH, CheckError
from p_image import emitted, replay as _replay, w

M32 = 0xFFFFFFFF
HFSR, CFSR, MMFAR, BFAR = 0xE000ED2C, 0xE000ED28, 0xE000ED34, 0xE000ED38

# ------------------------------------------------------------------------------------------------ crashes
def region(a, data, ro=False):
    out = ["region %x %x" % (a, len(data))]
    k = 0
    while k < len(data):
        out.append("load %x %s" % ((a + k) & M32, bytes(data[k:k + 4096]).hex())); k += 4096
    return out + (["ro %x" % a] if ro else [])
def ctx(r, fpu=False, exc=3, psr=0, regs=None):
    regs = regs or [r.getrandbits(32) for _ in range(19)]
    fp = [r.getrandbits(32) for _ in range(33)]
    return ["ctx %x %x %s" % (1 if fpu else 0, (psr & ~0xFF & M32) | exc, " ".join("%x" % x for x in regs + fp))]
def word(x): return list((x & M32).to_bytes(4, "little"))
def status(r, cap=None, cfsr=None, hfsr=None):
    out = []
    for a, v in ((CFSR, cfsr), (HFSR, hfsr), (MMFAR, None), (BFAR, None)):
        if (cap is None and r.random() < 0.6) or (cap and a in cap):
            out += region(a, word(r.getrandbits(32) if v is None else v))
    return out
PROBES = "state 0:10 8000000:20 20000000:40 20001000:10 30000000:10 e000ed28:14 fffffff0:10"
def session(r, cmds, wait=1, polls=None, lead=""):
    return ["session %d %d %s" % (wait, polls if polls is not None else r.choice([0, 0, 1, 3]), lead)] + cmds + ["end"]
def crash(r, fpu=None, exc=None):
    """Flash, RAM (two neighbouring regions), an alias, the fault registers and the top of memory."""
    fpu = r.random() < 0.5 if fpu is None else fpu
    exc = r.choice([2, 3, 3, 4, 5, 6, 12, 0, 11, 255, r.randrange(256)]) if exc is None else exc
    data = lambda n: [r.randrange(256) for _ in range(n)]
    flash = data(32)
    flash[0:2] = [0xAB, 0xBE]            # BKPT 0xAB: the semihosting call
    regs = [r.getrandbits(32) for _ in range(19)]
    regs[15] = r.choice([0x08000000, 0x08000000, 0x08000004, 0x20000000, 0xFFFFFFFE, r.getrandbits(32)])
    out = region(0x08000000, flash, ro=True) + region(0x20000000, data(30)) + region(0x2000001E, data(10))
    if r.random() < 0.6: out.append("alias %x %x %x" % (0x30000000, r.choice([0x20000002, 0x08000000]), r.choice([8, 64])))
    if r.random() < 0.5: out += region(0xFFFFFFF8, data(8))
    if r.random() < 0.3: out += region(0, data(4))
    return out + status(r) + ctx(r, fpu, exc, r.getrandbits(32), regs), fpu

# ------------------------------------------------------------------------------------------------ commands
BASES = [0x08000000, 0x20000000, 0x2000001E, 0x30000000, 0xFFFFFFF8, 0, CFSR, 0x20001000, 0x40000000]
def address(r):
    k = r.random()
    return (r.choice(BASES) + r.choice([0, 0, 1, 2, 3, 4, 6, 8, 16, 28, 29, 30, 31, 37, 38, 39, 40, -1, -2, -4, r.randrange(40)])) & M32 if k < 0.95 else r.getrandbits(32)
def hx(r, n): return bytes(r.choice([r.randrange(256), 0x23, 0x24, 0x7D, 0x2A, 0, 255]) for _ in range(n)).hex()
def read(r): return "m %x %x" % (address(r), r.choice([1, 1, 2, 2, 4, 4, 3, 5, 7, 8, 16, 33, 0, 256]))
def write(r):
    n = r.choice([1, 1, 2, 2, 4, 4, 3, 5, 8, 12, 0])
    return "%s %x %x %s" % (r.choice("MMX"), address(r), n, hx(r, n))
def setregs(r, fpu): return "G " + hx(r, 208 if fpu or r.random() < 0.3 else 76)
XML = lambda r: "%s %x %x" % (r.choice(["map", "xml"]), r.choice([0, 0, 1, 100, 0x2d0, 5000, r.randrange(2500)]), r.choice([0, 1, 16, 300, 4000, 4096]))
def control(r):
    k = r.random()
    if k < 0.45: return "%s %u %x %x" % (r.choice("Zz"), r.choice([1, 1, 2, 3, 4, 0, 5, 9]), address(r), r.choice([2, 4, 1, 8, 0, 3]))
    if k < 0.7: return r.choice("cs") + r.choice(["", " %x" % address(r), " 08000000", " 08000001", " 8000005"])
    if k < 0.8: return r.choice("CS") + " " + r.choice(["05", "0b;20000000", "02;8000000", "00"])
    return "raw " + r.choice(["H0", "Hg0", "vCont?", "!", "p0", "P0=01000000", "qC", "D", "k0", "qSupported:x", "T0", "i", "Q", "b", "zz"][:13])
CALLS = ["rd8", "rd16", "rd32", "wr8", "wr16", "wr32", "cause", "setpc", "advance", "step", "nostep", "enter", "leave", "semiret", "semiask", "sbp", "cbp", "swp", "cwp"]
def call(r, mem=True):
    k = r.choice(CALLS if mem else CALLS[6:])
    a = address(r)
    return "call %s %x %x" % (k, a, r.getrandbits(32) if k.startswith("wr") or k == "semiret" else r.choice([1, 2, 4, 8, 0]))
def ask(r): return r.choice(["?", "g", "?", read(r), "xml 0 4000", "map 0 4000"])

def tests(c, module="PlatformMC"):
    """The crash and command sequences of the bounded model, as histories."""
    crashes, seqs = {}, []
    for t in emitted(c, module, {"BIG": "1" if THOROUGH else "0"}):
        if "setup" in t: crashes[(t["fpu"], t["exc"])] = t
        else: seqs.append(t)
    return crashes, seqs
def model_setup(t):
    out = []
    for o in t["setup"]:
        if o["k"] == "region": out.append("region %x %x" % (w(o["a"]), w(o["n"])))
        elif o["k"] == "load": out.append("load %x %s" % (w(o["a"]), bytes(o["d"]).hex()))
        elif o["k"] == "ro": out.append("ro %x" % w(o["a"]))
        else: out.append("alias %x %x %x" % (w(o["a"]), w(o["b"]), w(o["n"])))
    x = t["ctx"]
    return out + ["ctx %x %x %s" % (w(x["flags"]), w(x["ePSR"]), " ".join("%x" % w(v) for v in x["R"] + x["FPR"]))]
def model_cmd(e):
    k = e["k"]
    if k in ("?", "g"): return k
    if k == "G": return "G " + bytes(e["d"]).hex()
    if k == "m": return "m %x %x" % (w(e["a"]), e["n"])
    if k in ("M", "X"): return "%s %x %x %s" % (k, w(e["a"]), e["n"], bytes(e["d"]).hex())
    if k in ("map", "xml"): return "%s %x %x" % (k, e["o"], e["n"])
    if k in ("Z", "z"): return "%s %u %x %x" % (k, e["t"], w(e["a"]), e["n"])
    if k == "raw": return "raw " + e["x"]
    return (k + " " + e["x"]).strip()
MODEL_PROBES = "state 0:8 20000000:8 60000000:8 fffffffc:4 e000ed28:4 e000ed34:4"
def model_histories(c, kinds, n):
    """Sequences of the model that contain a command of the given kinds (and the same ended by g, ?)."""
    crashes, seqs = tests(c)
    pick = [t for t in seqs if any(e["k"] in kinds for e in t["cmds"])]
    if len(pick) > n: pick = c.rng.sample(pick, n)
    out = []
    for t in pick:
        cr = crashes[(t["on"]["fpu"], t["on"]["exc"])]
        out.append(model_setup(cr) + session(c.rng, [model_cmd(e) for e in t["cmds"]] + ["g", "?", MODEL_PROBES]))
    return out

# ------------------------------------------------------------------------------------------------ scale
def many_regions(r, n):
    """Enough regions for a memory map that needs more than 16 bits of offset."""
    out, at = [], 0x1000
    for k in range(n):
        size = r.choice([1, 2, 4, 8, 16])
        out.append("region %x %x" % (at, size))
        if r.random() < 0.2: out.append("ro %x" % at)
        at += size + r.choice([0, 1, 0x100, 0x40000])
    return out
def big_map(r, n):
    total = 100 + 66 * n
    offs = [0, 0xFE, 0x100, 0x7FFF, 0xFFF0, 0xFFFF, 0x10000, 0x10001, 0x10010, total - 3000, 2 * total, 0xFFFFFF, 0x1000000] + [r.randrange(total) for _ in range(3)]
    return many_regions(r, n) + ctx(r) + session(r, ["map %x %x" % (o, r.choice([1, 16, 300, 4000])) for o in offs if o >= 0] + ["?", "map 0 20"])
FAR = [0, 0x7F, 0xFF, 0x100, 0x7FFE, 0x7FFF, 0x8000, 0xFFFC, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x10002, 0x100FF, 0x17FFF, 0x1FFFE]
def far_memory(r, n=40):
    size = r.choice([0x10004, 0x18001, 0x20000])
    base = r.choice([0x10000000, 0x0FFFF000, 0x20FF8000])
    out = ["region %x %x" % (base, size)]
    for o in FAR:
        if o + 8 <= size: out.append("load %x %s" % (base + o, hx(r, 8)))
    out += ["alias 70000000 %x %x" % (base + 2, size - 2)] + ctx(r, exc=12)
    hot = [base + o for o in FAR + [size - 4, size - 2, size - 1, size] if o <= size] + [0x70000000 + o for o in FAR if o + 2 <= size]
    cmds = []
    for _ in range(n):
        a, k = r.choice(hot), r.choice([1, 2, 4, 3, 8])
        cmds.append(r.choice(["m %x %x" % (a, k), "M %x %x %s" % (a, k, hx(r, k)), "X %x %x %s" % (a, k, hx(r, k)), "call rd%d %x 0" % (r.choice([8, 16, 32]), a), "call wr%d %x %x" % (r.choice([8, 16, 32]), a, r.getrandbits(32))]))
    return out + session(r, cmds + ["m %x %x" % (base + 0x8001, 0x1F00), "state " + " ".join("%x:4" % a for a in hot[:20])])
def long_session(r, kinds, n):
    """Very many commands, among them very many that fail, in one session."""
    setup, fpu = crash(r)
    make = {"g": lambda: r.choice(["g", setregs(r, fpu)]), "?": lambda: "?", "m": lambda: read(r), "M": lambda: write(r), "c": lambda: control(r), "call": lambda: call(r, mem=False), "x": lambda: XML(r)}
    return setup + session(r, [make[r.choice(kinds)]() for _ in range(n)] + ["g", "?", PROBES])
def many_faults(r):
    """The same access again and again before anybody asks whether one of them failed."""
    setup, _ = crash(r, exc=12)
    cmds = []
    for k in (1, 2, 127, 128, 255, 256, 257, 512):
        for what in r.sample(["rd8", "rd16", "rd32", "wr8", "wr16", "wr32"], 3):
            cmds += ["call %s %x 55 %x" % (what, a, k) for a in (0x40000000, 0x20000000)] + ["m 20000000 3"]
    return setup + session(r, cmds + [PROBES])

def full_packets(r):
    """Commands which need every byte of the packet size that is offered to GDB: the largest read and the largest write."""
    return ["region %x 400" % (0x20000000 + 0x400 * k) for k in range(17)] + ctx(r, exc=12) + session(r, ["raw qSupported:xmlRegisters=i386", "fullX 20000003 4100", "?", "m 20000000 8", "fullm 20000003 4100", "g", "m 20003ff0 20", "xml 0 4000", "?"])

# ------------------------------------------------------------------------------------------------ checks
def run(c, hist, label=""): c.conform("platform", "PlatformTrace", hist, label=label)

def C20(c):
    r = c.rng
    hist = model_histories(c, {"g", "G", "?", "xml"}, 900 if not THOROUGH else 30000)
    for fpu in (False, True):
        for k in range(52):            # each register alone, each byte lane
            if k >= 19 and not fpu: continue
            regs = [0] * 52
            regs[k] = r.choice([0x01020304, 0xFF, 0xFF000000, 0x80000000, M32])
            new = bytearray(208 if fpu else 76)
            new[4 * k + r.randrange(4)] = r.randrange(1, 256)
            hist.append(["ctx %x %x %s" % (fpu, 3, " ".join("%x" % x for x in regs))] + session(r, ["g", "?", "G " + new.hex(), "g", "?", "state"]))
    for flags in (0, 1, 2, 3, 0xFFFFFFFE, M32):
        hist.append(["ctx %x 3 %s" % (flags, " ".join("%x" % (i * 0x01010101) for i in range(52)))] + session(r, ["g", "G " + hx(r, 208), "g", "xml 0 4000", "state"]))
    for _ in range(250 if not THOROUGH else 8000):
        setup, fpu = crash(r)
        cmds = [r.choice([setregs(r, fpu), "g", "?", "g", read(r), write(r), control(r), XML(r)]) for _ in range(r.choice([4, 10, 25]))]
        hist.append(setup + session(r, cmds + ["g", "?", PROBES]))
    for fpu in (False, True):          # the description piece by piece
        for step in (1, 7, 16, 100, 511, 4000):
            n = 3000 if fpu else 2000
            if step == 1: offs = list(range(0, 40)) + list(range(n - 1500, n - 1300, 3))
            else: offs = range(0, n, step)
            hist.append(ctx(r, fpu) + session(r, ["xml %x %x" % (o, step) for o in offs]))
        hist.append(ctx(r, fpu) + session(r, ["xml %x %x" % (o, n) for o in (0xFF, 0x100, 0xFFFF, 0x10000, 0x10001, 0x10100, 0x1000000, 0x7FFFFFFF) for n in (0, 1, 20, 4000)]))
        hist.append(long_session(r, "gg?mx", 700))
    hist += [big_map(r, n) for n in ((300, 1100) if not THOROUGH else (300, 1100, 4200))]
    run(c, hist)

def C21(c):
    r = c.rng
    hist = []
    for exc in range(256):
        for psr in [0, M32] + [r.getrandbits(32) for _ in range(2 if not THOROUGH else 30)] + [1 << r.randrange(8, 32)]:
            hist.append(ctx(r, r.random() < 0.5, exc, psr) + status(r, cap=set() if exc not in (3, 4, 5, 6) else None)
                        + session(r, ["?", "call cause 0 0", r.choice(["?", "c", "s", "g"]), control(r), setregs(r, True), "?", "call cause 0 0", "c"], wait=r.choice([1, 1, 0])))
    for bit in range(8, 32):           # one other PSR bit at a time
        for exc in (0, 2, 3, 4, 5, 6, 12, 255): hist.append(ctx(r, False, exc, 1 << bit) + session(r, ["?", "?"]))
    for _ in range(60 if not THOROUGH else 3000):
        setup, fpu = crash(r)
        hist.append(setup + session(r, [r.choice(["?", "c", "s", control(r), setregs(r, fpu), write(r), "call cause 0 0"]) for _ in range(12)] + ["?"], wait=r.choice([0, 1])))
    hist += [long_session(r, ["?", "?", "c", "call", "g"], 700) for _ in range(2)]
    run(c, hist)
    c.mc("FaultMC", env={"BIG": "0", "EMIT": "0"}, workers=vlib.CORES)

def fault_history(c, psr, cap, cfsr, hfsr, mmfar, bfar, cmds=None, wait=None):
    r = c.rng
    out = []
    for there, a, v in zip(cap, (CFSR, HFSR, MMFAR, BFAR), (cfsr, hfsr, mmfar, bfar)):
        if there: out += region(a, word(v))
    wt = r.choice([0, 1]) if wait is None else wait
    return out + ["ctx 0 %x %s" % (psr, "0 " * 52)] + session(r, (["c"] if wt or cmds is None else []) + (cmds or []) + ["state e000ed28:4 e000ed2c:4 e000ed34:4 e000ed38:4"], wait=wt)
def C22(c):
    r = c.rng
    ts = emitted(c, "FaultMC", {"BIG": "1" if THOROUGH else "0"})
    n = 2500 if not THOROUGH else 60000
    if len(ts) > n: ts = r.sample(ts, n)
    hist = [fault_history(c, w(t["psr"]), t["cap"], w(t["cfsr"]), w(t["hfsr"]), w(t["mmfar"]), w(t["bfar"])) for t in ts]
    ADDR = [0, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0xFFFFFF, 0x1000000, 0x80000000, M32]
    for exc in (3, 4, 5, 6):
        for bit in range(32):          # every bit alone, every bit missing alone
            for v in (1 << bit, M32 ^ (1 << bit)):
                hist.append(fault_history(c, exc, [1, 1, 1, 1], v, r.choice([1 << 30, M32, 0]) if exc != 3 else 1 << 30, r.choice(ADDR), r.choice(ADDR)))
                if exc == 3: hist.append(fault_history(c, exc, [1, 1, 1, 1], r.getrandbits(32), v, r.choice(ADDR), r.choice(ADDR)))
        for a in ADDR:
            for b in (ADDR if THOROUGH else r.sample(ADDR, 3)): hist.append(fault_history(c, exc, [1, 1, 1, 1], 0x8080, 1 << 30, a, b))
    for _ in range(300 if not THOROUGH else 10000):
        exc = r.choice([3, 3, 3, 4, 5, 6, 12, 0, 2, 7, 3 + 256])
        cfsr, hfsr = r.getrandbits(32) & r.getrandbits(32), r.choice([r.getrandbits(32), 1 << 30, 0x40000000 | r.getrandbits(32)])
        if r.random() < 0.3: cfsr &= r.choice([0xFF, 0xFF00, 0xFFFF0000])
        hist.append(fault_history(c, (r.getrandbits(32) & ~0xFF) | (exc & 0xFF), [r.random() < 0.8 for _ in range(4)], cfsr, hfsr, r.choice(ADDR + [r.getrandbits(32)]), r.choice(ADDR + [r.getrandbits(32)]),
                                  [r.choice(["c", "s", "?", "m e000ed28 4", "M e000ed28 4 %s" % hx(r, 4), "M e000ed29 1 %s" % hx(r, 1), "M e000ed2c 4 00000040"]) for _ in range(r.choice([1, 3, 6]))]))
    # registers captured in one big region, partly, or at its very end
    for _ in range(60 if not THOROUGH else 1500):
        start = CFSR - r.choice([0, 4, 40]); n = r.choice([4, 8, 12, 13, 15, 16, 17, 18, 19, 20, 44, 60])
        blk = [r.randrange(256) for _ in range(n)]
        hist.append(region(start, blk) + ctx(r, False, r.choice([3, 4, 5, 6])) + session(r, ["c", "state %x:%x" % (start, n)], wait=r.choice([0, 1])))
    for _ in range(6):                 # the registers deep inside a very big region
        start = r.choice([0xE0000000, 0xE000ED28 - 0x10000, 0xE000ED2C - 0x10000, 0xE000ED34 - 0xFFFF])
        out = ["region %x %x" % (start, 0xE000ED3C - start)]
        for a in (CFSR, HFSR, MMFAR, BFAR): out.append("load %x %s" % (a, bytes(word(r.getrandbits(32) | 0x40008080)).hex()))
        hist.append(out + ctx(r, False, r.choice([3, 4, 5, 6])) + session(r, ["c", "s", "state e000ed28:14"], wait=r.choice([0, 1])))
    hist.append(fault_history(c, 3, [1, 1, 1, 1], M32, M32, 0x12345678, 0x9ABCDEF0, ["c", "s"] * 150, 0))
    run(c, hist)

def C23(c):
    r = c.rng
    hist = model_histories(c, {"m", "M", "X"}, 1200 if not THOROUGH else 40000)
    for _ in range(250 if not THOROUGH else 8000):
        setup, fpu = crash(r)
        n = r.choice([5, 15, 40])
        cmds = []
        for _ in range(n):
            k = r.random()
            cmds.append(read(r) if k < 0.45 else write(r) if k < 0.8 else call(r) if k < 0.9 else ask(r))
        hist.append(setup + session(r, cmds + ["g", PROBES]))
    # every alignment and size around every edge
    setup, _ = crash(r, False, 3)
    for base, n in ((0x08000000, 32), (0x20000000, 30), (0x2000001E, 10), (0x20000000, 40)):
        cmds = []
        for edge in (base, base + n):
            for d in range(-5, 4):
                for size in (1, 2, 3, 4, 5, 8):
                    a = edge + d
                    cmds += ["m %x %x" % (a, size), "M %x %x %s" % (a, size, hx(r, size)), "m %x %x" % (a, size)]
                for size in (1, 2, 4): cmds += ["call rd%d %x 0" % (8 * size, a), "call wr%d %x %x" % (8 * size, a, r.getrandbits(32))]
        hist.append(setup + session(r, cmds + [PROBES]))
    for a in (0xFFFFFFF8, 0xFFFFFFFC, 0xFFFFFFFE, M32, 0):
        hist.append(region(0xFFFFFFF8, list(range(1, 9))) + region(0, [9, 10, 11]) + ctx(r) + session(r, [x for n in (1, 2, 3, 4, 6, 8, 9, 12) for x in ("m %x %x" % (a, n), "M %x %x %s" % (a, n, hx(r, n)), "m fffffff8 b")] + ["state fffffff8:8 0:4"]))
    # all byte values as binary data; too little data; a long read
    hist.append(region(0x20000000, [0] * 256) + ctx(r) + session(r, ["X 20000000 100 %s" % bytes(range(256)).hex(), "m 20000000 100", "M 20000000 4 0102", "M 20000001 3 aabb", "m 20000000 8", "X 20000010 4 11", "m 20000010 4", "M 20000000 0 -", "m 20000000 0"]))
    big = [r.randrange(256) for _ in range(4000)]
    hist.append(region(0x20000000, big) + ctx(r) + session(r, ["m 20000000 fa0", "m 20000f9e 10", "m 20000001 7ff", "M 20000100 400 %s" % hx(r, 1024), "m 20000000 fa0", "?"]))
    hist += [far_memory(r) for _ in range(10 if not THOROUGH else 100)] + [many_faults(r) for _ in range(3 if not THOROUGH else 20)]
    hist += [long_session(r, ["m", "M", "m", "call"], 700) for _ in range(2)]
    hist.append(full_packets(r))
    run(c, hist)

def C24(c):
    r = c.rng
    hist = model_histories(c, {"c", "s", "C", "S", "Z", "z", "raw"}, 900 if not THOROUGH else 30000)
    for exc in (3, 12, 2, 0):
        for pc in (0x08000000, 0x08000002, 0x20000000, 0x40000000, 0xFFFFFFFE):     # at a BKPT 0xAB, elsewhere, nowhere
            regs = [r.getrandbits(32) for _ in range(19)]; regs[15] = pc
            setup = region(0x08000000, [0xAB, 0xBE, 0x00, 0xBE, 1, 2, 3, 4], ro=True) + region(0x20000000, [0xAB, 0xBE, 9, 9]) + ctx(r, True, exc, 0x01000000, regs)
            for k in ("c", "s", "c 08000000", "s 20000000", "c 40000000", "C 05", "S 0b;20000000"):
                hist.append(setup + session(r, ["g", k, "g", "?", k, "g", PROBES]))
            hist.append(setup + session(r, ["g", PROBES] + ["call %s %x %x" % (k, pc, 4) for k in CALLS[6:]] + ["g", "?", "c", "?", PROBES]))
    # continuing and stepping at, just beside and far from where the crash is, each in every byte of the address
    for pc in (0x08000000, 0x08000003, 0x20001234, 0xFFFFFFFE, 0):
        regs = [r.getrandbits(32) for _ in range(19)]; regs[15] = pc
        near = [pc ^ (1 << b) for b in range(32)] + [(pc + d) & M32 for d in range(-4, 5)] + regs[13:16]
        hist.append(region(0x08000000, [0xAB, 0xBE, 0x00, 0xBE]) + ctx(r, True, 3, 0x01000000, regs)
                    + session(r, [x for a in near for x in ("%s %x" % (r.choice("cs"), a), "call setpc %x 0" % a, "g")] + ["?", PROBES]))
    for t in range(0, 10):
        for a in (0, 0x08000000, 0x20000001, 0x30000000, 0x40000000, 0xFFFFFFFF):
            hist.append(crash(r)[0] + session(r, [PROBES] + ["%s %u %x %x" % (z, t, a, n) for z in ("Z", "z", "Z") for n in (0, 1, 2, 3, 4, 8)] + ["g", read(r), write(r), read(r), "c", PROBES]))
    for _ in range(300 if not THOROUGH else 10000):
        setup, fpu = crash(r, exc=r.choice([None, 12, 3]))
        cmds = []
        for _ in range(r.choice([6, 20, 40])):
            k = r.random()
            cmds.append(control(r) if k < 0.5 else call(r, mem=False) if k < 0.65 else ask(r) if k < 0.85 else write(r) if k < 0.95 else setregs(r, fpu))
        hist.append(setup + session(r, cmds + ["g", "?", PROBES], wait=r.choice([1, 1, 0])))
    hist += [long_session(r, ["c", "c", "call", "m", "M", "g"], 700) for _ in range(2)]
    # the very same order to run, or to watch, many times over
    for k in ("c", "s", "Z 2 20000000 4", "z 0 20000000 2", "C 05", "call step 0 0", "call advance 0 0"):
        hist.append(crash(r)[0] + session(r, [k] * 300 + ["g", "?", PROBES], wait=1))
    run(c, hist)

def replay(c, rep): _replay(c, rep)
