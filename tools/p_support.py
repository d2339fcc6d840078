"""C27-C32: exceptions, failure injection, the output spy, file sizes and the scripted line to GDB."""
import json, os, random, shutil, tempfile
import vlib
from vlib import THOROUGH, CheckError
from p_image import emitted

# ------------------------------------------------------------------------------------------------ C27
PLAIN = "".join(chr(i) for i in range(32, 127) if chr(i) not in '"\\')
def tok(e):
    if e["k"] == "msg": return "msg:%d:0:%s" % (e["n"], e["t"].encode().hex())
    return "%s:%d" % (e["k"], e["n"]) if e["k"] in ("throw", "set") else e["k"]
def random_text(r):
    n = r.choice([0, 1, 5, 20, 100, 1021, 1022, 1023, 1024, 1025, 2000]) if r.random() < 0.3 else r.randrange(12)
    return "".join(r.choice(PLAIN) for _ in range(n))
def random_program(r, size, quiet=False):
    """Instructions that nest properly; "ret" only where no body lies between it and its call."""
    out, open_ = [], []
    while len(out) < size or open_:
        close = len(out) >= size
        x = r.random()
        top = open_[-1] if open_ else ""
        if close or x < 0.28:
            if not open_: continue
            open_.pop()
            if top == "body": out.append("catch"); open_.append("handler")
            else: out.append("end" if top == "handler" else "endcall")
        elif x < 0.55 and len(open_) < 60:
            k = r.choice(["try", "try", "call"])
            out.append(k); open_.append("body" if k == "try" else "call")
        elif x < 0.60:
            k = max([i for i, o in enumerate(open_) if o == "call"], default=-1)
            if k >= 0 and "body" not in open_[k:]: out.append("ret")
        elif quiet and r.random() < 0.9: pass
        elif not open_ and r.random() < 0.9: pass          # a throw here ends the program
        elif x < 0.70: out.append("throw:%d" % code(r))
        elif x < 0.84: out.append("msg:%d:%d:%s" % (code(r), r.choice([0, 0, 1, 2]), random_text(r).encode().hex() or "-"))
        elif x < 0.89: out.append("rethrow")
        elif x < 0.96: out.append("clear")
        else: out.append("set:%d" % code(r))
    return out
def code(r): return r.choice([1, 2, 3, 5, 8, 15, 16, 18, 27, 31, 1000, 2147483647, 0])
def C27(c):
    r = c.rng
    ts = emitted(c, "ExcMC", {"BIG": "1" if THOROUGH else "0"})
    n = 20000 if not THOROUGH else 300000
    if len(ts) > n: ts = r.sample(ts, n)
    hist = [[" ".join(tok(e) for e in t)] for t in ts]
    for _ in range(2500 if not THOROUGH else 40000): hist.append([" ".join(random_program(r, r.choice([6, 12, 30, 80, 200]), r.random() < 0.3))])
    for depth in (1, 2, 10, 60):                 # straight down and all the way up
        for last in ("throw:3", "msg:4:0:" + b"deep".hex(), "clear"):
            for handler in ([], ["rethrow"], ["clear"], ["throw:9"], ["clear", "throw:2"]):
                p = ["try"] * depth + [last] + (["catch"] + handler + ["end"]) * depth
                hist.append([" ".join(p)])
                hist.append([" ".join(["try", "call"] * depth + [last] + sum([["endcall", "catch"] + handler + ["end"] for _ in range(depth)], []))])
    for depth in (255, 256, 257, 300):          # more handlers at once, more throws, than 8 bits count
        for last in ("throw:3", "msg:4:0:" + b"deep".hex(), "clear"):
            handler = r.choice([["rethrow"], ["clear", "throw:2"], ["throw:9"], ["clear"], []])
            hist.append([" ".join(["try"] * depth + [last] + (["catch"] + handler + ["end"]) * depth)])
            hist.append([" ".join(["try", "call"] * depth + [last] + sum([["endcall", "catch"] + handler + ["end"] for _ in range(depth)], []))])
        hist.append([" ".join(["try", "throw:%d" % code(r), "catch", "clear", "end"] * depth + ["try", "catch", "end", "try", "msg:5:0:6162", "catch", "end", "throw:2"])])
        hist.append([" ".join(["call", "try", "throw:%d" % code(r), "catch", "ret", "end", "endcall"] * depth + ["try", "throw:1", "catch", "end"])])
    for _ in range(20 if not THOROUGH else 400): hist.append([" ".join(random_program(r, 700, r.random() < 0.5))])
    c.conform("exc", "ExcTrace", hist)

# ------------------------------------------------------------------------------------------------ C28-C31
def in_scratch(exe, histories, trace, args=()):
    d = tempfile.mkdtemp(dir=os.path.dirname(trace))
    try: return vlib.run_harness(exe, histories, trace, args, cwd=d)
    finally: shutil.rmtree(d, ignore_errors=True)
def line(part, e):
    if part == "size": part = "file"
    rest = ",".join(bytes(x).hex() or "-" for x in e["l"]) or "_" if e["k"] == "ifgets" else vlib.hexs(e["d"])
    return "%s %s %d %d %s %s" % (part, e["k"], e["a"], e["b"], e["m"] or "-", rest)
def mocks(c, hist, label=""):
    c.conform("mocks", "MocksTrace", hist, exe=c.build.harness("mocks", mocks=True), runner=in_scratch, label=label)
def model(c, part, limit):
    big = {"BIG": "1" if THOROUGH else "0", "PART": part}
    c.mc("MocksMC", env=dict(big, EMIT="0"), workers=vlib.CORES)
    ts = c.mc("MocksMC", env=dict(big, EMIT="1", BIG="0"), workers=vlib.CORES)
    ts = [[line(part, e) for e in t] for t in ts]
    return ts if len(ts) <= limit else c.rng.sample(ts, limit)
def num(r): return r.choice([0, 1, 1, 2, 2, 3, 4, 5, 10, 50])
def C28(c):
    r = c.rng
    hist = model(c, "heap", 12000 if not THOROUGH else 200000)
    for _ in range(400 if not THOROUGH else 10000):
        h, live = [], set()
        for _ in range(r.choice([10, 40, 120])):
            k = r.choice(["fail", "restore", "malloc", "malloc", "malloc", "realloc", "realloc", "realloc", "free", "free"])
            b = r.randrange(1, 5)
            if k == "malloc":
                if b in live: k = "realloc"
            if k == "free":
                if b not in live: continue
                # (whether a refused block is live is not known here: freeing it again would be freeing nothing, which is fine)
                live.discard(b)
            if k in ("malloc", "realloc"): live.add(b)
            if k == "restore" and r.random() < 0.3:         # a resize to nothing that is to fail
                h += ["heap fail 1 0 - -", "heap realloc 0 %d - -" % b]
                continue
            a = num(r) if k == "fail" else r.choice([1, 8, 40, 100, 5000])
            if k == "fail" and r.random() < 0.1: a = 100000
            h.append("heap %s %d %d - -" % (k, a if k not in ("free", "restore") else 0, b))
        hist.append(h)
    for n in range(1, 30): hist.append(["heap fail %d 0 - -" % n] + [x for _ in range(n + 3) for x in ("heap realloc 16 1 - -",)])
    for n in (255, 256, 257, 300, 65535, 65536, 65537, 70000, 1 << 20, 2147483647):     # counts of more than 8, 16 bits; whole numbers of them
        m = min(n, 200000)
        hist.append(["heap fail %d 0 - -" % n, "heap many %d 0 - -" % (m - 1), "heap malloc 40 1 - -", "heap malloc 40 2 - -", "heap realloc 70000 2 - -", "heap realloc 8 2 - -"])
        hist.append(["heap fail %d 0 - -" % n, "heap many %d 0 - -" % (m + 1), "heap malloc 40 1 - -", "heap many %d 0 - -" % m, "heap fail 2 0 - -", "heap malloc 1 2 - -", "heap malloc 1 3 - -", "heap restore 0 0 - -", "heap many %d 0 - -" % m])
    for n in (65535, 65536, 100000, 1 << 20): hist.append(["heap malloc %d 1 - -" % n, "heap realloc %d 1 - -" % (n + 1), "heap fail 1 0 - -", "heap realloc %d 1 - -" % (2 * n), "heap realloc 10 1 - -"])
    mocks(c, hist, "heap")
TEXT = [chr(i) for i in range(32, 127)] + ["\n", "\n"]
def text(r, n): return "".join(r.choice(TEXT) for _ in range(n))
def random_file(r):
    h, gets = [], False
    for _ in range(r.choice([8, 20, 60])):
        k = r.random()
        if k < 0.3:
            i = r.choice(["ifopen", "rfopen", "ifclose", "rfclose", "ifseek", "pfseek", "rfseek", "iftell", "rftell", "ifwrite", "rfwrite", "ifread", "nfread", "rfread", "ifgets", "rfgets"])
            a, m, x = 0, "-", "-"
            if i == "ifopen": m = r.choice(["null", "given"])
            if i in ("ifseek", "iftell"): a = r.choice([-1, -1, 0, 5, -7, 2147483647])
            if i in ("ifwrite", "ifread"): a = r.choice([0, 0, 1, 7])
            if i in ("pfseek", "nfread"): a = num(r)
            if i == "ifgets": x = ",".join(text(r, r.choice([0, 1, 5, 30, 200])).encode().hex() or "-" for _ in range(r.randrange(5))) or "_"
            gets = {"ifgets": True, "rfgets": False}.get(i, gets)
            h.append("file %s %d 0 %s %s" % (i, a, m, x))
        elif k < 0.36: h.append("file fopen 0 0 %s -" % r.choice(["exists", "missing"]))
        elif k < 0.40: h.append("file fclose 0 0 - -")
        elif k < 0.55:
            w = r.choice(["set", "cur", "end"])
            if r.random() < 0.3: h.append("file eofseek %d 0 %s -" % (r.choice([0, 0, 1]), w))
            h.append("file fseek %d 0 %s -" % (r.choice([0, 0, 1, 3, 10]) * (1 if w == "set" else r.choice([1, -1])), w))
        elif k < 0.62: h.append("file ftell 0 0 - -")
        elif k < 0.75:
            z = r.choice([1, 1, 2, 3, 8])
            h.append("file fwrite %d 0 - %s" % (z, text(r, z * r.choice([0, 1, 2, 5])).encode().hex() or "-"))
        elif k < 0.88: h.append("file fread %d %d - -" % (r.choice([1, 1, 2, 3, 8]), r.choice([0, 1, 2, 5, 40])))
        else: h.append("file fgets %d 0 - -" % r.choice([2, 3, 6, 40, 250] + ([1, 1] if gets else [])))
    return h
def C29(c):
    r = c.rng
    hist = model(c, "file", 10000 if not THOROUGH else 200000)
    hist += [random_file(r) for _ in range(900 if not THOROUGH else 30000)]
    # every count of calls to pass before failing, with other calls between, and again without asking
    for n in range(0, 12):
        for v in (-1, 3):
            seeks = ["file fseek 1 0 set -", "file ftell 0 0 - -", "file fseek 0 0 end -"] * 8
            hist.append(["file fwrite 1 0 - 616263", "file pfseek %d 0 - -" % n, "file ifseek %d 0 - -" % v] + seeks + ["file rfseek 0 0 - -", "file fseek 1 0 set -", "file ifseek -1 0 - -", "file fseek 2 0 set -"])
            ends = ["file eofseek %d 0 %s -" % x for x in ((0, "cur"), (0, "end"), (0, "set"), (1, "set"), (-1, "cur"))] * 3
            hist.append(["file fwrite 1 0 - 616263", "file pfseek %d 0 - -" % n, "file ifseek %d 0 - -" % v] + ends + ["file rfseek 0 0 - -"] + ends[:5])
            reads = ["file fseek 0 0 set -", "file fread 1 2 - -"] * 16
            hist.append(["file fwrite 1 0 - 616263", "file ifread %d 0 - -" % max(v, 0), "file nfread %d 0 - -" % n] + reads + ["file rfread 0 0 - -"] + reads[:4])
    for n in (255, 256, 257, 300, 65535, 65536, 65537, 70000):
        w = "file fwrite 1 0 - 616263"
        hist.append([w, "file pfseek %d 0 - -" % n, "file ifseek -1 0 - -", "file mfseek %d 0 - -" % (n - 1), "file fseek 1 0 set -", "file fseek 2 0 set -", "file mfseek 3 0 - -", "file rfseek 0 0 - -", "file mfseek %d 0 - -" % n])
        hist.append([w, "file ifread 0 0 - -", "file nfread %d 0 - -" % n, "file mfread %d 0 - -" % (n - 1), "file fread 1 2 - -", "file fread 1 2 - -", "file mfread %d 0 - -" % n])
        hist.append([w, "file ifread 0 0 - -", "file mfread %d 0 - -" % n, "file nfread %d 0 - -" % n, "file mfread %d 0 - -" % (n + 5), "file ifread 2 0 - -", "file mfread 3 0 - -"])
    for n in (255, 256, 300):
        h = ["file ifgets 0 0 - " + ",".join(text(r, r.choice([1, 3, 9])).encode().hex() for _ in range(n))]
        hist.append(h + ["file fgets %d 0 - -" % r.choice([2, 5, 40]) for _ in range(n + 3)] + ["file rfgets 0 0 - -", "file fgets 40 0 - -"])
    for n in (65535, 65536, 70001):      # blocks of more than 16 bits
        d = text(r, n).encode().hex()
        hist.append(["file fwrite %d 0 - %s" % (r.choice([1, n]), d), "file fseek 0 0 set -", "file fread 1 %d - -" % n, "file fseek 65534 0 set -", "file ftell 0 0 - -", "file fread 2 2 - -", "file fgets 70 0 - -", "file fseek -1 0 end -", "file fread 1 2 - -"])
    mocks(c, hist, "file")
def C30(c):
    r = c.rng
    hist = model(c, "spy", 10000 if not THOROUGH else 200000)
    for _ in range(500 if not THOROUGH else 10000):
        h, kept, on = [], [], False
        for _ in range(r.choice([6, 20, 60])):
            k = r.random()
            if k < 0.12 or (not on and k < 0.4): h.append("spy hook %d 0 - -" % r.choice([0, 1, 2, 10, 64, 256, 4000])); kept, on = [], True
            elif k < 0.17: h.append("spy unhook 0 0 - -"); kept, on = [], False
            elif k < 0.6:
                s = r.choice(["out", "out", "err"])
                h.append("spy %s 0 %d - %s" % (s, r.choice([0, 0, 1, 2, 3]), text(r, r.choice([0, 1, 2, 9, 10, 11, 63, 64, 65, 255, 256, 257, 5000])).encode().hex() or "-"))
                if on: kept = ([s] + kept)[:4]
            elif k < 0.7: h.append("spy count 0 0 - -")
            else:
                n = r.randrange(1, 5)
                h.append("spy q%s %d 0 - -" % (kept[n - 1] if n <= len(kept) else r.choice(["out", "err"]), n))
        hist.append(h)
    for n in (255, 256, 257, 65535, 65536, 70000):       # kept sizes and numbers of outputs of more than 8, 16 bits
        d = text(r, min(n + 3, 65530) if n < 66000 else 70003).encode().hex()
        hist.append(["spy hook %d 0 - -" % n, "spy out 0 0 - " + d, "spy qout 1 0 - -", "spy err 0 0 - 6162", "spy qerr 1 0 - -", "spy qout 2 0 - -", "spy count 0 0 - -"])
        hist.append(["spy hook 10 0 - -", "spy many %d 0 - -" % n, "spy count 0 0 - -", "spy qout 1 0 - -", "spy qout 4 0 - -", "spy err 0 0 - 616263", "spy count 0 0 - -", "spy qerr 1 0 - -", "spy qout 2 0 - -", "spy hook 3 0 - -", "spy count 0 0 - -", "spy qout 1 0 - -"])
    mocks(c, hist, "spy")
def C31(c):
    r = c.rng
    hist = model(c, "size", 9000 if not THOROUGH else 100000)
    for t in hist:                       # how many calls a failed size query made is nobody's business
        for i in range(len(t) - 1, -1, -1):
            if t[i].startswith("file size"): t.insert(i + 1, "file rfseek 0 0 - -")
    for n in [0, 1, 2, 3, 127, 128, 255, 256, 511, 512, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 31) + 5, (1 << 32) - 1, 1 << 32, 5000000001] + [r.randrange(1 << r.randrange(1, 24)) for _ in range(60)]:
        for start in (0, -1, -2, n // 2, n, 1):
            for mode in ("rb", "r+b"): hist.append(["real %d %d %s" % (n, start, mode)])
        hist.append(["real %d 0 a+b" % n])
    hist.append(["real 0 0 pipe"])
    for _ in range(200 if not THOROUGH else 5000):
        h = []
        for x in random_file(r): h += [x] if x.split()[1] not in ("ifseek", "iftell", "pfseek") else []
        k = r.randrange(len(h) + 1) if h else 0
        inj = r.choice([[], [], ["file ifseek -1 0 - -"], ["file pfseek 1 0 - -", "file ifseek -1 0 - -"], ["file pfseek 2 0 - -", "file ifseek -1 0 - -"], ["file iftell -5 0 - -"]])
        hist.append(h[:k] + inj + ["file size 0 0 - -", "file rfseek 0 0 - -", "file rftell 0 0 - -"] + h[k:] + ["file size 0 0 - -"])
    mocks(c, hist, "size")

# ------------------------------------------------------------------------------------------------ C32
def script_line(part, o): return "%s %s %d %s %s" % (part, o["k"], o["a"], vlib.hexs(o["d"]), vlib.hexs(o["e"]))
def bytesof(r, n): return bytes(r.choice([36, 35, 43, 45, 125, 255, 128, 1, r.randrange(1, 256)]) for _ in range(n))
def summed(d):
    out, n = b"", 0
    for b in d:
        out += bytes([b])
        if b == 36: n = 0
        elif b == 35: out += b"%02x" % n
        else: n = (n + b) & 255
    return out
def size(r): return r.choice([0, 1, 1, 2, 3, 4, 10, 40, 200])
def random_line(r, steps):
    h, b, i = [], [0, 0], 2
    keep = False
    stop = False
    for _ in range(steps):
        k = r.random()
        if k < 0.12:
            d, e, one = bytesof(r, size(r)), bytesof(r, size(r)), r.random() < 0.4
            f = r.choice(["init", "initsum"])
            h.append("line %s %d %s %s" % (f, one, d.hex() or "-", e.hex() or "-"))
            n = len if f == "init" else (lambda x: len(summed(x)))
            b, i, delay = [n(d), 4 if one else n(e)], 0, 0
        elif k < 0.17: h.append("line delay %d - -" % r.choice([0, 1, 2, 5, 300]))
        elif k < 0.35: h.append("line has 0 - -"); continue
        elif k < 0.6:
            # (asking may already have moved on to the second text, never past one that has something left)
            j = 0 if b[0] else 1 if b[1] else 2
            if i > 1 or j == 2: continue
            n = min(b[j], r.choice([1, 1, 1, 2, 5, 300]))
            h.append("line recv 0 - -" if n == 1 else "line recvs %d - -" % n); b[j] -= n
        elif k < 0.66: h.append("line keep %d - -" % size(r)); keep = True
        elif k < 0.76: h.append("line send 0 %s -" % (bytesof(r, r.choice([1, 1, 2, 30])).hex()))
        elif k < 0.82 and keep: h.append("line sent 0 - -")
        elif k < 0.87: h.append("line sum 0 %s -" % (bytesof(r, size(r)).hex() or "-"))
        elif k < 0.90: h.append("line setstop %d - -" % r.choice([0, 1, 1, 0])); stop = True
        elif k < 0.93 and stop: h.append("line stop 0 - -")
        elif k < 0.95: h.append("line setconn %d - -" % r.choice([0, 1, 1, 0]))
        elif k < 0.98: h.append("line conn 0 - -")
        elif k > 0.99: h.append("line uninit 0 - -"); b, i, keep, stop = [0, 0], 2, False, False
    return h
def random_con(r, steps):
    h, left, rx, wx, keep = [], 0, False, False, False
    for _ in range(steps):
        k = r.random()
        if k < 0.1:
            f = r.choice(["sethx", "setrx", "setwx"]); v = r.choice([0, 0, 27, 1, 31])
            h.append("con %s %d - -" % (f, v))
            if f == "setrx": rx = v != 0
            if f == "setwx": wx = v != 0
        elif k < 0.15: h.append("con sethv %d - -" % r.choice([0, 1, 1, 7, -1, 0]))
        elif k < 0.25: n = size(r); h.append("con input 0 %s -" % (bytes(r.randrange(256) for _ in range(n)).hex() or "-")); left = n
        elif k < 0.35: h.append("con has 0 - -")
        elif k < 0.55:
            n = min(left, r.choice([1, 1, 2, 40]))
            if n > 1 and not rx: h.append("con reads %d - -" % n)
            else: h.append("con read 0 - -"); n = 0 if rx else min(left, 1)
            left -= n
        elif k < 0.62: h.append("con keep %d - -" % size(r)); keep = True
        elif k < 0.85:
            d = bytesof(r, r.choice([1, 1, 2, 30]))
            h.append("con writes 0 %s -" % d.hex() if len(d) > 1 and not wx else "con write %d - -" % d[0])
        elif k < 0.98 and keep: h.append("con kept 0 - -")
        elif k > 0.985: h.append("con uninit 0 - -"); left, rx, wx, keep = 0, False, False, False
    return h
def C32(c):
    r = c.rng
    hist = []
    for part in ("line", "con"):
        big = {"BIG": "1" if THOROUGH else "0", "PART": part}
        c.mc("ScriptMC", env=dict(big, EMIT="0"), workers=vlib.CORES)
        ts = c.mc("ScriptMC", env=dict(big, EMIT="1", BIG="0"), workers=vlib.CORES)
        n = 9000 if not THOROUGH else 150000
        if len(ts) > n: ts = r.sample(ts, n)
        hist += [[script_line(part, o) for o in t] for t in ts]
    for _ in range(400 if not THOROUGH else 10000):
        hist.append(random_line(r, r.choice([10, 30, 100])))
        hist.append(random_con(r, r.choice([10, 30, 100])))
    for b in range(1, 256):              # every byte, and the checksum of every sum
        x = bytes([b])
        hist.append(["line initsum 0 %s %s" % ((b"$" + x + b"#").hex(), x.hex()), "line has 0 - -", "line recv 0 - -", "line recv 0 - -", "line keep 3 - -", "line send 0 %02x -" % b, "line sent 0 - -",
                     "line sum 0 %s -" % (b"$" + x * r.choice([1, 2, 255, 256]) + b"#" + x + b"#$#").hex(), "con input 0 %02x -" % b, "con read 0 - -", "con keep 1 - -", "con write %d - -" % b, "con kept 0 - -"])
    for n in (255, 256, 257, 65535, 65536, 70000):     # more than 8, 16 bits count
        d, e = bytesof(r, n).hex(), bytesof(r, 20).hex()
        hist.append(["line init 0 %s %s" % (d, e), "line recvs %d - -" % (n - 1), "line has 0 - -", "line recv 0 - -", "line has 0 - -", "line has 0 - -", "line recvs 20 - -", "line has 0 - -", "line has 0 - -",
                     "line keep %d - -" % (n - 1), "line send 0 %s -" % d, "line sent 0 - -", "line keep %d - -" % (n + 1), "line send 0 %s -" % d, "line send 0 2b24 -", "line sent 0 - -"])
        hist.append(["con input 0 %s -" % d, "con reads %d - -" % (n - 1), "con read 0 - -", "con read 0 - -", "con keep %d - -" % (n - 1), "con writes 0 %s -" % d, "con kept 0 - -", "con keep %d - -" % (n + 1), "con writes 0 %s -" % d, "con writes 0 2b24 -", "con kept 0 - -"])
    for n in (1, 2, 127, 128, 255, 256, 257, 300):
        hist.append(["line init 1 2b -", "line delay %d - -" % n] + ["line has 0 - -"] * (n + 2) + ["line delay %d - -" % n, "line recv 0 - -", "line has 0 - -", "line has 0 - -", "line recvs 4 - -"])
    c.conform("script", "ScriptTrace", hist, exe=c.build.harness("script", mocks="scripted"))

def replay(c, rep):
    if rep["harness"] == "mocks": mocks(c, [rep["history"]], "replay")
    elif rep["harness"] == "script": c.conform("script", "ScriptTrace", [rep["history"]], label="replay", exe=c.build.harness("script", mocks="scripted"))
    else: c.conform(rep["harness"], rep["spec"], [rep["history"]], label="replay")
