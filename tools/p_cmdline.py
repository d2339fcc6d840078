"""C17-C19: start-up from the command line against CmdLine.tla."""
import json, os, shutil, struct, subprocess, tempfile
import vlib
from vlib import THOROUGH, CheckError
import p_image, p_log
from p_image import emitted, probes, w, loadables

M32 = 0xFFFFFFFF
def hx(b):
    b = b if isinstance(b, bytes) else b.encode("latin-1")
    return b.hex() or "-"

def history(args, files, rs, faults=(("none", 0, 0),), prog=False):
    """files: {name: bytes or None (directory)}; only those named by an argument are created."""
    h = []
    for name, d in files.items():
        if name not in args: continue
        h.append("dir " + hx(name) if d is None else "file %s %s" % (hx(name), hx(d)))
    h.append(("args " + " ".join(hx(a) for a in args)).strip())
    if prog: h.append("prog")
    else:
        for op, n, small in faults: h.append("run %s %d %d %s" % (op, n, small, probes(rs)))
    return h

def num(r, v):
    k = r.random()
    if k < 0.5: return r.choice(["0x%x", "0x%08x", "0X%X", "0x%08X"]) % v
    if k < 0.7: return "%d" % v
    if k < 0.8: return "0%o" % v
    if k < 0.9: return r.choice(["0x%x ", "0x%xg", "%d.", " 0x%x", "+%d", "\t%d", "%d,1"]) % v
    return r.choice(["", "x", "zz", "0x", "-", "0xg", "0"]) if k > 0.97 else "0x%x" % v

def case_mix(r, s):
    return s if r.random() < 0.6 else s.upper() if r.random() < 0.5 else "".join(r.choice([ch, ch.upper()]) for ch in s)

NAMES = ["core.elf", "a.bin", "dump.txt", "d", "x.elf", "crash.hex", "cC", "6343", "log", "a b", "--dump", "--elf", "--alias", "-", "--", "%s%d", "\xe9", "n" * 200, "core.BIN", "1", "0x10"]

def make_image(r):
    while True:
        f = p_image.random_elf(r)
        rs = loadables(f)
        if not (p_image.overlapping(rs) or any(a + n > 1 << 32 for a, n in rs) or len(rs) > 20): return f, rs

def make_dump(r):
    """(bytes, regions): a dump in any of the three formats, sometimes damaged."""
    k = r.random()
    if k < 0.35:
        t, rs = p_log.make_log(r)
        return t.encode("latin-1"), rs
    b, rs = p_image.make_dump(r, sentinel=r.random() < 0.05)
    if r.random() < 0.12: b = b[:r.randrange(len(b) + 1)]
    if k < 0.7: return b, rs
    t = p_image.hexify(r, b)
    if r.random() < 0.3 and len(t) > 8: t = t[:4] + p_image.noise(r, t[4:])
    if r.random() < 0.05: t = p_image.noise(r, t, 0.3)
    return t.encode("latin-1"), rs

def random_line(r, good=None):
    """A command line with its files. Aliases, images and dumps all interact through addresses."""
    names = r.sample(NAMES, 6)
    files, rs, words = {}, [], []
    groups = []
    elf = r.random() < 0.5
    def image(forced=None):
        f, er = make_image(r)
        if r.random() < 0.35 or forced == "bin": f = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 5, 40, 0 if not good else 3])))
        n = names.pop(); files[n] = f
        rs.extend(er)
        return n, f
    for _ in range(r.choice([1, 1, 1, 2])):
        if elf:
            n, f = image(); groups.append(["--elf", n])
        if not elf or r.random() < 0.3:
            n, f = image("bin"); a = r.choice([0, 0x08000000, 0x10000, 0x40000000, 0x20000000 - len(f), 0x1000001])
            groups.append(["--bin", n, num(r, a)]); rs.append((a, len(f)))
            if r.random() < 0.2: rs.append((0, len(f)))
    for _ in range(r.choice([1, 1, 1, 2])):
        d, dr = make_dump(r); n = names.pop(); files[n] = d; rs.extend(dr)
        groups.append(["--dump", n])
    if good is None and r.random() < 0.15:
        g = r.choice(groups)
        k = r.random()
        if k < 0.4: g[1] = "nowhere"
        elif k < 0.7: files[g[1]] = None
        else: g[1] = ""
    real = [x for x in rs if x[1]]
    base = 0x60000000
    aliases = []
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        t = r.choice(real + aliases) if real + aliases else (0x70000000, 4)
        red = (t[0] + r.randrange(max(1, min(t[1], 64)))) & M32
        if r.random() < 0.06: red = r.choice([0x70000000, (t[0] - 1) & M32, (t[0] + t[1]) & M32])
        size = r.choice([1, 2, t[1], t[1] + 5, 0x1000, 0]) & 0xFFFFF
        b = base; base += r.choice([size, size + 16, 4])
        if r.random() < 0.1: b = max(0, t[0] - 4)
        groups.append(["--alias", num(r, b), num(r, size), num(r, red)]); aliases.append((b, size))
    r.shuffle(groups)
    for g in groups: g[0] = case_mix(r, g[0])
    line = [x for g in groups for x in g]
    k = r.random()
    if good is None:
        if k < 0.06: line = line[:-1]
        elif k < 0.1: line.insert(r.randrange(len(line) + 1), r.choice(["--verbose", "-elf", "elf", "--", "", "--elfx", "--dum", "---dump", "--Bin ", "--\xe9"]))
        elif k < 0.13: del line[r.randrange(len(line))]
    return line, files, rs + aliases

def tests(c, n):
    ts = emitted(c, "CmdMC", {"BIG": "1" if THOROUGH else "0"})
    files = [t for t in ts if "files" in t][0]["files"]
    files = {bytes(f["n"]).decode("latin-1"): bytes(f["d"]) for f in files}
    ts = [t for t in ts if "args" in t]
    if len(ts) > n: ts = c.rng.sample(ts, n)
    rs = [(0x10000, 5), (0x20000, 4), (0x100000, 3), (0x1C000, 90), (0x20000000, 4), (0x30000000, 2), (0x30000100, 16), (1, 1)]
    return [([bytes(a).decode("latin-1") for a in t["args"]], files, rs) for t in ts]

def prefer(ts, r, n):
    """Longer lines say more: all kinds, but mostly complete ones."""
    is_full = lambda t: any(a.lower() == "--dump" for a in t[0]) and any(a.lower() in ("--elf", "--bin") for a in t[0])
    full = [t for t in ts if is_full(t)]
    rest = [t for t in ts if not is_full(t)]
    return r.sample(full, min(len(full), n * 2 // 3)) + r.sample(rest, min(len(rest), n // 3))

def big_line(r):
    """More options, aliases or bytes than 8 or 16 bits count."""
    k = r.random()
    img, er = make_image(r)
    while not er: img, er = make_image(r)
    d, dr = make_dump(r)
    line, files, rs = ["--elf", "e", "--dump", "d"], {"e": img, "d": d}, er + dr
    if k < 0.4:                       # aliases of what is there, of one another
        real = [x for x in er if x[1]]
        if real:
            al, groups = [], []
            for i in range(r.choice([64, 255, 256, 260, 300])):
                t = r.choice(real + al[-20:]); o = r.randrange(min(t[1], 64))
                al.append((0x60000000 + 32 * i, max(1, min(16, t[1] - o)))); groups += ["--alias", "0x%x" % al[-1][0], "0x10", "0x%x" % (t[0] + o)]
            line = line + groups if r.random() < 0.5 else line[:2] + groups + line[2:]
            rs = rs[:4] + al[:3] + al[-6:] + al[250:258]
    elif k < 0.6:                     # the last one counts
        line = [x for _ in range(r.choice([100, 127, 130, 256])) for x in (r.choice(["--dump", "--DUMP"]), "nowhere")] + line
    else:
        n = r.choice([0xFFFF, 0x10000, 0x10001, 0x10003, 0x1FFFF, 0x18002]); b = r.choice([0, 0x08000000, 0x8001])
        files["e"] = r.randbytes(n); line = ["--bin", "e", "0x%x" % b, "--dump", "d"] + (["--alias", "0x60000000", "0x%x" % r.choice([16, 0x10001, n]), "0x%x" % (b + r.choice([0, 0xFFFE, 0x1234, n - 20]))] if r.random() < 0.7 else [])
        if b < 0x9000: d = p_image.make_dump(r, regions=0)[0]; files["d"] = d
        rs = [(b, 8), (b + 0xFFF8, 16), (b + n - 8, 8), (0x60000000, 18), (0x6000FFF8, 16), (b + 0x1FFF0, 16)]
    return line, files, rs

def C17(c):
    r = c.rng
    hist = [history(*t) for t in prefer(tests(c, 10 ** 9), r, 1500 if not THOROUGH else 40000)]
    for _ in range(900 if not THOROUGH else 20000): hist.append(history(*random_line(r)))
    for _ in range(40 if not THOROUGH else 600):      # one request in several orders and spellings
        line, files, rs = random_line(r, good=True)
        groups, i = [], 0
        while i < len(line):
            k = {"--bin": 3, "--elf": 2, "--dump": 2, "--alias": 4}[line[i].lower()]
            groups.append(line[i:i + k]); i += k
        for _ in range(4):
            g = [list(x) for x in groups]
            order = [x for x in g if x[0].lower() != "--alias"]
            al = [x for x in g if x[0].lower() == "--alias"]
            r.shuffle(order)
            pos = sorted(r.randrange(len(order) + 1) for _ in al)
            for p, a in zip(reversed(pos), reversed(al)): order.insert(p, a)
            for x in order: x[0] = case_mix(r, x[0])
            hist.append(history([y for x in order for y in x], files, rs))
    for _ in range(24 if not THOROUGH else 300): hist.append(history(*big_line(r)))
    c.conform("cmdline", "CmdTrace", hist)

def C18(c):
    r = c.rng
    hist = [history(*t) for t in prefer(tests(c, 10 ** 9), r, 500 if not THOROUGH else 15000)]
    img = bytes([1, 2, 3])
    def add(d, rs, name=None):
        name = name or r.choice(NAMES)
        if name == "i": name = "j"
        hist.append(history(["--bin", "i", "0x08000000", "--dump", name], {"i": img, name: d}, rs + [(0x08000000, 3), (0x20000000, 8)]))
    log = b"0x20000000:\t0x11223344\nr0             0x5\n"
    body, rs = p_image.make_dump(r, ver=3, fp=True, regions=2)
    hexed = body.hex().encode()
    for whole, wr in ((body, rs), (hexed, rs), (hexed.upper(), rs), (log, [])):
        for name in NAMES: add(whole, wr, name)
        for cut in list(range(0, 14)) + [len(whole) - 1]: add(whole[:cut], wr)
        for i in range(min(6, len(whole))):       # any other start
            near = list(b"0123456789abcdefABCDEF") if whole in (hexed, log) and i < 4 else [0x43, 0x63, 0x63 ^ 0x80, 0x43 ^ 0x80, 0x23, 0x62, 0x64, 0x42, 0x44] if i < 2 else []
            for ch in near + r.sample(range(256), 14) + [whole[i] ^ 0x20, (whole[i] + 1) & 255, 10, 13, 0, 32]:
                d = bytearray(whole); d[i] = ch; add(bytes(d), wr)
        for pre in (b"\n", b"\r\n", b" ", b"\x00", b"c", b"C", b"6", b"63", b"634", b"6343", b"cC", b"Cc", b"\xef\xbb\xbf", b"cc", b"CC", b"x"): add(pre + whole, wr)
    for _ in range(9 if not THOROUGH else 60):
        b, br, a = p_image.big_dump(r)
        for d in ((b, b.hex().encode(), b.hex().upper().encode()) if len(b) < 50000 else (r.choice([b, b.hex().encode()]),)): add(d, p_image.spread(p_image.far(br)))
    for _ in range(250 if not THOROUGH else 6000):
        d, dr = make_dump(r)
        if r.random() < 0.2: d = bytes([r.choice([0x63, 0x43, 0x36, 0x33, 0x34, 10, 13, 32]) for _ in range(r.randrange(1, 6))]) + d
        add(d, dr)
    c.conform("cmdline", "CmdTrace", hist)

# ------------------------------------------------------------------------------------------------ the program itself
def text(b):
    out = []
    for ch in b:
        out.append(chr(ch) if 32 <= ch <= 126 else {10: "\n", 13: "\r", 9: "\t"}.get(ch, "?%02x" % ch))
    return "".join(out)
def unhx(s): return b"" if s == "-" else bytes.fromhex(s)
def pos(s, x): return s.find(x) + 1

def run_program(exe, histories, trace, args=()):
    """Each history ends with 'prog': the program is started on its files with nothing on standard input."""
    slow = 0
    with open(trace, "w") as out:
        for h, lines in histories:
            if slow >= 2: break                  # enough has been seen of a program that hangs
            out.write(json.dumps({"ev": "H", "h": h}) + "\n")
            d = tempfile.mkdtemp(dir=os.path.dirname(trace))
            files, argv = [], []
            try:
                for line in lines:
                    p = line.split(" ")
                    if p[0] == "file":
                        with open(os.path.join(d.encode(), unhx(p[1])), "wb") as f: f.write(unhx(p[2]))
                        files.append({"n": list(unhx(p[1])), "dir": False, "d": list(unhx(p[2]))})
                    elif p[0] == "dir":
                        os.mkdir(os.path.join(d.encode(), unhx(p[1])))
                        files.append({"n": list(unhx(p[1])), "dir": True, "d": []})
                    elif p[0] == "args": argv = [unhx(x) for x in p[1:]]
                    elif p[0] == "prog":
                        try:
                            r = subprocess.run([exe.encode()] + argv, cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=10)
                        except subprocess.TimeoutExpired:
                            out.write(json.dumps({"ev": "crash", "why": "the program did not end"}) + "\n"); slow += 1; continue
                        if r.returncode < 0:
                            out.write(json.dumps({"ev": "crash", "why": "the program died of signal %d" % -r.returncode}) + "\n"); continue
                        err = r.stderr.decode("latin-1")
                        first = err.split("\n")[0] if "\n" in err else ""
                        out.write(json.dumps({"ev": "prog", "args": [list(a) for a in argv], "files": files, "rc": r.returncode, "out": len(r.stdout), "err1": text(first.encode("latin-1")),
                                              "errors": err.count("ERROR:"), "copyright": pos(err, "Copyright"), "usage": pos(err, "Usage: CrashDebug"),
                                              "opts": int(all(o in err for o in ("--elf", "--bin", "--dump", "--alias")))}) + "\n")
            finally:
                shutil.rmtree(d, ignore_errors=True)

def body_of(r): return p_image.make_dump(r, regions=1)[0]
FAULTS = [("malloc", 12), ("fopen", 4), ("fread", 12), ("fgets", 5), ("fseek", 3), ("ftell", 2), ("fclose", 4)]
def C19(c):
    r = c.rng
    ts = tests(c, 10 ** 9)
    hist = [history(*t) for t in r.sample(ts, 700 if not THOROUGH else 20000)]
    for _ in range(250 if not THOROUGH else 8000): hist.append(history(*random_line(r)))
    # a fault at every point of a start-up that would succeed
    def f(args, files, rs, op, n, sm): hist.append(history(args, files, rs, [(op, n, sm)]))
    img = p_image.ehdr(52, 32, 1) + struct.pack("<8I", 1, 84, 0x10000, 0x10000, 9, 9, 5, 4) + bytes(range(9))
    dump, rs = p_image.make_dump(r, ver=3, fp=True, regions=3)
    log = b"\n".join(b"0x%08x:\t0x%08x\t0x1\t0x2\t0x3" % (0x20000000 + 16 * i, i) for i in range(6)) + b"\nr0             0x5\n"
    bases = [(["--elf", "e", "--dump", "b", "--alias", "0x60000000", "4", "0x10000"], {"e": img, "b": dump}, rs),
             (["--bin", "e", "0x08000000", "--dump", "h"], {"e": img, "h": dump.hex().encode()}, rs),
             (["--bin", "e", "0x08000000", "--dump", "l", "--alias", "0x60000000", "0x10", "0x20000004"], {"e": img, "l": log}, [(0x20000000, 96)])]
    for args, files, prs in bases:
        for op, k in FAULTS:
            top = k * (1 if not THOROUGH else 4)
            if op in ("fread", "fgets") and files.get("h"): top = max(top, 24)
            for n in range(1, top + 1):
                for sm in ((0, 1) if op in ("fread", "fgets") else (0,)): f(args, files, prs, op, n, sm)
    # reading fails wherever the file's buffer has just been used up: inside regions, and between them
    for kind in ("b", "h"):
        regs = [(0x20000000 + 32 * k, n) for k, n in enumerate([8, 16, 1, 2, 3, 4, 5, 6, 7, 9, 8, 8, 10, 16, 8, 8])]
        d = p_image.make_dump(r, regions=0)[0] + b"".join(struct.pack("<II", a, a + n) + bytes(r.randrange(1, 256) for _ in range(n)) for a, n in regs)
        top = 5 + sum(n + 1 for _, n in regs) if kind == "b" else 2 * len(d)
        for n in r.sample(range(4, top), min(top - 4, 60 if not THOROUGH else 400)):
            f(["--bin", "e", "0x08000000", "--dump", kind], {"e": img, kind: d if kind == "b" else d.hex().encode()}, regs, "fread", n, 1)
    # the dump can't be loaded and neither could the alias: it is the dump's failure that is explained
    for t in ("b", "h", "l"):
        d = dump[:-3] if t == "b" else dump.hex().encode()[:-9] if t == "h" else log.replace(b"0x2", b"0x1", 1).replace(b"0x10000000", b"0x08000000")
        for a in ("0x50000000", "0x20000000", "0x08000000"):
            hist.append(history(["--alias", "0x60000000", "4", a, "--bin", "e", "0x08000000", "--dump", t], {"e": img, t: d}, []))
    for _ in range(150 if not THOROUGH else 4000):
        line, files, prs = random_line(r, good=True)
        op, k = r.choice(FAULTS)
        f(line, files, prs, op, r.randrange(1, 2 * k), r.randrange(2))
    # dumps which show memory the image covers: what it holds can't be changed
    for kind in ("bin", "hex", "log"):
        for a, n in ((0x08000000, 4), (0x08000000, 16), (0x08000004, 4), (0x08000008, 8), (0x07FFFFFC, 8), (0x07FFFFF0, 16), (0x08000010, 4), (0x07FFFFF0, 40), (0x0800000C, 8), (0x08000010, 8)):
            for pre in (0, 1):
                regions = ([(0x20000000, 8)] if pre else []) + [(a, n), (0x20000100, 4)]
                if kind == "log":
                    t = "".join("0x%08x:\t%s\n" % (x + o, "\t".join("0x%x" % (x + q) for q in range(o, min(o + 16, m), 4))) for x, m in regions for o in range(0, m, 16))
                    d = t.encode()
                else:
                    d = p_image.make_dump(r, regions=0)[0] + b"".join(struct.pack("<II", x, x + m) + bytes(r.randrange(1, 256) for _ in range(m)) for x, m in regions)
                    if kind == "hex": d = d.hex().encode()
                line = ["--bin", "e", "0x08000000", "--dump", "d"] + (["--alias", "0x60000000", "4", "0x%x" % a] if r.random() < 0.3 else [])
                hist.append(history(line, {"e": bytes(range(1, 19)), "d": d}, regions + [(0x08000000, 18), (0x60000000, 4)]))
    # very long names and options: the explanation keeps its beginning
    for n in (255, 256, 900, 985, 990, 995, 1000, 1001, 1002, 1005, 1010, 1023, 1024, 1025, 1100, 2000, 3000, 4000):
        x = "n" * n if r.random() < 0.5 else ("d/" * n)[:n]
        for line in (["--elf", x, "--dump", "d"], ["--bin", "e", "0", "--dump", x], ["--" + x], ["--bin", "e", "0", "--dump", "d", "--" + x], ["--bin", x, "0", "--dump", "d"]):
            hist.append(history(line, {"e": b"1234", "d": body_of(r)}, []))
    for _ in range(8 if not THOROUGH else 100): hist.append(history(*big_line(r)))
    # several failures in a row in one process: nothing carries over
    for _ in range(30 if not THOROUGH else 500):
        h = []
        for _ in range(4):
            line, files, prs = random_line(r)
            op, k = r.choice(FAULTS + [("none", 1)])
            h += ["clear"] + history(line, files, prs, [(op, r.randrange(1, 2 * k), 0)])
        hist.append(h)
    c.conform("cmdline", "CmdTrace", hist)
    # the same through the program: exit status, standard output and error
    progs = [history(*t, prog=True) for t in prefer(ts, r, 300 if not THOROUGH else 5000)]
    for _ in range(150 if not THOROUGH else 3000): progs.append(history(*random_line(r), prog=True))
    progs.append(history([], {}, [], prog=True))
    for n in ("d", "e"): progs.append(history(["--bin", n, "0", "--dump", "f"], {n: None, "f": b""}, [], prog=True))
    progs.append(history(["--bin", "e", "0", "--dump", "d"], {"e": b"123", "d": None}, [], prog=True))
    c.conform("program", "CmdTrace", progs, exe=c.build.program(), runner=run_program, label="program")

def replay(c, rep):
    if rep["harness"] == "program":
        c.conform("program", rep["spec"], [rep["history"]], exe=c.build.program(), runner=run_program)
    else:
        c.conform(rep["harness"], rep["spec"], [rep["history"]], env=rep.get("env"), args=rep.get("args", []))
