"""C15-C16: GDB logs against GdbLog.tla."""
import json
import vlib
from vlib import THOROUGH, CheckError
from p_image import probes, emitted, w

M32 = 0xFFFFFFFF
REGS = ["r%d" % i for i in range(13)] + ["sp", "lr", "pc", "xpsr", "msp", "psp"]
FREGS = ["s%d" % i for i in range(32)]
NOISE = ["", "(gdb) info registers", "(gdb) x/4wx 0x20000000", "Cannot access memory at address 0x20001000",
         "0x08000123 in main () at main.c:12", "#0  0x08000123 in main () at main.c:12", "12\t  return 0;", "0x2000000:\t0x1\t0x2",
         "0x20000000:", "0x20000000 <foo>:", "0x20000010: Cannot access memory at address 0x20000010", "  0x20000000:\t0x1",
         "0X20000000:\t0x1", "0x2000000g:\t0x1", "$1 = 0x20000000", "r13            0x1\t1", "r1 0x5", " r1             0x5", "R1             0x5",
         "r1            0x5", "r01            0x5", "s32            1\t(raw 0x1)", "d0             1\t(raw 0x1)", "sp_main        0x1", "spsr           0x1",
         "cpsr           0x1", "primask        0x1", "xpsr\t0x1", "pc", "lr     0x1", "s1", "fps            0x1", "fpscr:         0x1", "msp2           0x7",
         "~\"r0             0x1\\n\"", "x" * 200, "Breakpoint 1 at 0x8000100", "\t", "0x", "0x1234567", "0x12345678", "0x12345678\t", "-0x12345678: 0x1"]

def value(r):
    return r.choice([0, 1, M32, 0x80000000, 0x7FFFFFFF, 0x20000000, r.randrange(1 << 32), r.randrange(256)])
def fmt(r, v, kind=None):
    kind = kind or r.choice("xxxxXdo")
    if kind == "x": return r.choice(["0x%08x", "0x%x"]) % v
    if kind == "X": return r.choice(["0x%08X", "0X%X"]) % v
    if kind == "o": return "0%o" % v
    if r.random() < 0.3 and v >= 1 << 31: return "-%d" % ((1 << 32) - v)
    return "%d" % v
SYMS = ["<main>", "<main+4>", "<std::vector<int, foo>::push_back(int const&)+12>", "<__bss_start__>", "<a<b<c>>, d>+8", "<operator<<(int)>>", "<f(char const*) const+2>"]

def mem_line(r, a, n):
    vs = [value(r) for _ in range(n)]
    kind = r.choice("xxxxXdo")
    sym = r.choice(["", "", " " + r.choice(SYMS)])
    s = r.choice(["0x%08x", "0x%08X"]) % a + sym + r.choice([":", ":", ":", " "] if sym else [":", ":", " ", "\t", "="])
    sep = r.choice(["\t", "\t", " ", "  ", " \t"])
    for v in vs:
        s += sep + (r.choice(SYMS) + " " if r.random() < 0.04 else "") + fmt(r, v, kind)
    if n == 4 and r.random() < 0.1: s += sep + fmt(r, value(r), kind)        # a fifth number is not shown memory
    elif n < 4 and r.random() < 0.15: s += r.choice([" ", "\t", " foo", " <end>", " (1)", "  # x"])
    return s
def int_line(r, name):
    v = value(r)
    return "%-15s%s" % (name, fmt(r, v)) + r.choice(["", "\t%d" % v, "\t0x%x <main+4>" % v, " "])
def float_line(r, name):
    v = value(r)
    return "%-15s%s" % (name, r.choice(["1", "-nan(0x7fffff)", "3.40282347e+38", "0"])) + r.choice(["\t", " ", "  "]) + \
           ("(raw %s)" % fmt(r, v, "x") if r.random() < 0.85 else r.choice(["", "raw 0x1", "(raw", "(RAW 0x1)", "(raw:0x1)"]))

def make_log(r):
    lines, rs = [], []
    a = r.choice([0x20000000, 0x10000000, 0, 0x1FFFFFF0, 0xE000ED20, 0xFFFFFF00])
    a += r.choice([0, 0, 0, 1, 2])
    for _ in range(r.choice([0, 1, 3, 6, 12, 20])):
        k = r.random()
        if k < 0.5:
            n = r.choice([4, 4, 4, 1, 2, 3])
            j = r.random()
            if j < 0.12: a += r.choice([4, 16, 0x100, -16, -4, -8])
            elif j < 0.16 and rs: a = r.choice(rs)[0]
            a &= M32
            if a + 4 * n > 1 << 32: a = (a & 3) if a & 3 == 0 else 0x30000000 + (a & 3)
            if a >> 28 == 0xF and r.random() < 0.3: a = (1 << 32) - 16 if a & 3 == 0 else a
            if a + 4 * n > 1 << 32: n = 1
            if a + 4 * n > 1 << 32: continue
            lines.append(mem_line(r, a, n)); rs.append((a, 16)); a += 4 * n
            if a == 1 << 32: a = r.choice([0, 0x20000000])
        elif k < 0.68: lines.append(int_line(r, r.choice(REGS + ["fpscr"])))
        elif k < 0.8: lines.append(float_line(r, r.choice(FREGS)))
        else: lines.append(r.choice(NOISE))
    eol = r.choice(["\n", "\n", "\r\n"])
    t = eol.join(lines) + r.choice([eol, eol, ""])
    return t, rs

def case(t, rs):
    return "log %s %s" % ((t if isinstance(t, bytes) else t.encode("latin-1")).hex() or "-", probes(rs + [(0x20000000, 32), (0x0, 4), (0xFFFFFFF0, 16)]))

def tests(c, n):
    ts = emitted(c, "GdbLogMC", {"BIG": "1" if THOROUGH else "0"})
    if len(ts) > n: ts = c.rng.sample(ts, n)
    return [[case(bytes(t["d"]), [(w(x["a"]), x["n"]) for x in t["regs"]])] for t in ts]

def C15(c):
    r = c.rng
    hist = tests(c, 2000 if not THOROUGH else 60000)
    for _ in range(900 if not THOROUGH else 20000):
        hist.append([case(*make_log(r))])
    # long lines, one word per line for hundreds of lines, every separator
    big, rs = [], []
    for i in range(300): big.append("0x%08x:\t0x%08x" % (0x20000000 + 4 * i, r.randrange(1 << 32)))
    hist.append([case("\n".join(big), [(0x20000000, 1200)])])
    # more regions, lines or bytes than 8 or 16 bits count
    for n in (255, 256, 300):
        step = r.choice([32, 48, 0x1000]); at = [0x20000000 + step * k for k in range(n)]
        if r.random() < 0.5: r.shuffle(at)
        t = "\n".join("0x%08x:\t0x%x\t0x%x" % (a, value(r), value(r)) + ("\t7\t8" if a % 96 == 0 else "") for a in at)
        hist.append([case(t, [(a, 16) for a in at[:3] + at[-4:] + at[250:260]])])
    for n in (4096, 4097, 4200, 8200):
        a = r.choice([0, 0x20000000, 0x2000FFF0])
        t = "\n".join("0x%08x:\t0x%x\t0x%x\t0x%x\t0x%x" % (a + 16 * k, *[r.randrange(1 << 32) for _ in range(4)]) for k in range(n)) + "\n0x%08x: 1 2\n" % (a + 16 * n + 64)
        hist.append([case(t, [(a, 20), (a + 0xFFF0, 40), (a + 16 * n - 20, 30), (a + 16 * n + 60, 14), (a + 8 * n, 20)])])
    for n in (255, 256, 65535, 65536):
        hist.append([case("0x20000000: 1 2\n" + "\n" * n + "0x20000008: 3\n0x30000000: 4\n" + "r0             0x5\n", [(0x20000000, 16), (0x30000000, 8)])])
    for n in (127, 128, 255, 256, 300):
        hist.append([case("0x20000000 <" + "<" * n + "a b" + ">" * n + "c d>:\t0x11\t0x12\n0x20000008 <" + "x" * n + ">:\t0x13", [(0x20000000, 16)])])
    for ch in range(1, 256):
        if chr(ch) in "0123456789abcdefABCDEF\n": continue
        hist.append([case(("0x20000000%c 0x1 0x2 0x3\n0x2000000c%c 5\n" % (ch, ch)), [(0x20000000, 16)])])
    # addresses with one character that isn't what an address has there, and every digit at every place of one
    for k in range(10):
        for ch in "/:@G`g xX0-\x7f" if k > 1 else "/:@G`g 1yXo":
            a = list("0x2000ac00"); a[k] = ch
            if "".join(a) == "0x2000ac00": continue
            hist.append([case("0x20000010:\t0x1\n%s:\t0x5\t0x6\n0x20000014:\t0x7\n" % "".join(a), [(0x20000000, 32), (0x2000ac00, 8), (0, 8)])])
    for near in (" 0x2000004", "\t0x2000004", "+0x2000004", "-0x2000004", "  0x200004", "0020000004", "0200000040", "2000000004", "00x2000004", "0x 2000004", "0x+2000004",
                 "0x-2000004", "0x0x200004", "0X20000004", "0o20000004", "x020000004", "0x2000004 ", "0x2000004.", "0x200000_4", "0x20'00004", "0b10000004", "0x2000004h"):
        for tail in (":\t0x5\t0x6", ": 9 9", " <main>: 0x5"):
            hist.append([case("0x20000000:\t0x1\n%s%s\n0x20000004:\t0x7\n" % (near, tail), [(0x20000000, 16), (0x2000004, 8), (0x200004, 8), (4, 4), (0xFDFFFFFC, 8)])])
    for ch in "0123456789abcdefABCDEF":
        lines = ["0x%s:\t0x%x" % ("".join(ch if q == k else "0000ac00"[q] for q in range(8)), 1 + k) for k in range(8)]
        rs = sorted({int(x[2:10], 16) for x in lines})
        hist.append([case("\n".join(lines[k] for k in range(8) if int(lines[k][2:10], 16) in rs and [int(x[2:10], 16) for x in lines].index(int(lines[k][2:10], 16)) == k), [(a, 4) for a in rs])])
        hist.append([case("0x%s: 0x%s 0x1%s\nr0             0x%s\n" % (ch * 7 + "0", ch * 8, ch, ch * 3), [(int(ch * 7 + "0", 16), 8)])])
    for n in (1000, 1010, 1015, 1022):
        hist.append([case("0x20000000 <" + "f" * (n - 30) + ">:\t0x11\n0x20000004:\t0x12", [(0x20000000, 8)]), case("y" * (n - 1) + "\n0x20000004:\t0x12", [(0x20000004, 4)]),
                     case("y" * 1023 + "0x20000004:\t0x12\n0x20000008: 1", [(0x20000004, 8)])])
    c.conform("image", "LogTrace", hist)

def C16(c):
    r = c.rng
    hist = tests(c, 1200 if not THOROUGH else 40000)
    for name in REGS + ["fpscr"]:      # each register with each kind of value, and names one character off
        for kind in "xXdo":
            hist.append([case("%-15s%s\t1\n" % (name, fmt(r, value(r), kind)), [])])
        for bad in (name + " ", name[:-1], name + "x", name.upper(), " " + name, "x" + name):
            if ("%-14s" % bad)[:14].rstrip(" ") in REGS + FREGS + ["fpscr"] and bad == name: continue
            for pad in (14, 15, 16):
                hist.append([case("%-*s0x%x\n" % (pad, bad, value(r)), [])])
    for name in FREGS:
        hist.append([case(float_line(r, name) + "\n", [])])
        hist.append([case(float_line(r, name) + "\n" + float_line(r, r.choice(FREGS)) + "\n", [])])
    for _ in range(700 if not THOROUGH else 15000):
        lines = []
        for _ in range(r.choice([1, 2, 5, 20, 40])):
            k = r.random()
            lines.append(int_line(r, r.choice(REGS + ["fpscr"])) if k < 0.45 else float_line(r, r.choice(FREGS)) if k < 0.75 else r.choice(NOISE) if k < 0.9
                         else mem_line(r, 0x20000000 + 16 * r.randrange(8), 4))
        hist.append([case("\n".join(lines) + r.choice(["", "\n"]), [(0x20000000, 32)])])
    for n in (255, 256, 65535, 65536):
        hist.append([case("r3             0x5\n" + "\n" * n + "r4             0x6\ns3             1 (raw 0x77)\n" + "r5             0x7", [])])
    for n in (20, 21, 25, 100):          # a number no register can hold isn't a reason to refuse the log
        hist.append([case("r4             0x77\nr5             " + "9" * n + "\nr6             0x66\n0x20000000: 1 2\n", [(0x20000000, 8)])])
    for n in (100, 254, 255, 256, 257, 300, 700):        # a value far into the line
        hist.append([case("s7             " + "1" * n + "\t(raw 0x1234)\ns8             1" + " " * n + "(raw 0x4321)\nr6             " + " " * n + "0x66\nr7             0x" + "0" * n + "77\n", [])])
    # everything at once, in any order
    for _ in range(20):
        lines = [int_line(r, n) for n in REGS + ["fpscr"]] + [float_line(r, n) for n in FREGS]
        r.shuffle(lines)
        hist.append([case("\n".join(lines), [])])
    c.conform("image", "LogTrace", hist)

from p_image import replay
