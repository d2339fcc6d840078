"""C25-C26: the line to GDB against Comm.tla, and whole sessions of the program against Session.tla."""
import json, os, random, select, shutil, subprocess, tempfile, time
import vlib, p_image, p_cmdline, p_platform
from vlib import THOROUGH, CheckError
from p_image import emitted

# ------------------------------------------------------------------------------------------------ C25
def comm_line(e):
    k = e["k"]
    if k in ("put", "file"): return "%s %s" % (k, vlib.hexs(e["d"]))
    if k in ("send", "csend"): return "%s %x" % (k, e["b"])
    if k in ("in", "out"): return "%s %s" % (k, e["m"])
    return k
def random_comm(r):
    out, n = [], r.choice([5, 20, 60])
    for _ in range(n):
        k = r.random()
        if k < 0.2: out.append("put " + bytes(r.randrange(256) for _ in range(r.choice([1, 1, 2, 5, 40]))).hex())
        elif k < 0.42: out.append(r.choice(["recv", "recv", "recv", "crecv"]))
        elif k < 0.55: out.append("send %x" % r.choice([r.randrange(256), r.randrange(256), 0xFFFFFF00 | r.randrange(128, 256), r.randrange(256, 1 << 16)]))
        elif k < 0.75: out.append(r.choice(["has", "connected", "connected", "stop", "chas"]))
        elif k < 0.8: out.append("csend %x" % r.randrange(256))
        elif k < 0.86: out.append("drain")
        elif k < 0.9: out.append("init")
        elif k < 0.93: out.append("eof")
        elif k < 0.94: out.append("file " + (bytes(r.randrange(256) for _ in range(r.randrange(6))).hex() or "-"))
        elif k < 0.97: out.append("in " + r.choice(["open", "open", "nowait", "closed", "dir"]))
        else: out.append("out " + r.choice(["open", "open", "closed", "gone", "full"]))
    return legal(out)
def legal(lines):
    """Drop what makes no sense: writing into an input that is not a pipe or already ended, draining a missing pipe."""
    inp, outp, res = "open", "open", []
    for l in lines:
        k, _, m = l.partition(" ")
        if k in ("put", "eof") and inp not in ("open", "nowait"): continue
        if k == "drain" and outp != "open": continue
        if k == "in": inp = m
        if k == "out": outp = m
        if k in ("eof", "file"): inp = "end"
        res.append(l)
    return res
def C25(c):
    r = c.rng
    c.mc("CommMC", env={"BIG": "1" if THOROUGH else "0", "EMIT": "0"}, workers=vlib.CORES)
    ts = c.mc("CommMC", "CommEmit", env={"BIG": "1" if THOROUGH else "0", "EMIT": "1"}, workers=vlib.CORES)
    ts = [[comm_line(e) for e in t] for t in ts]
    n = 12000 if not THOROUGH else 200000
    if len(ts) > n: ts = r.sample(ts, n)
    hist = [t + ["connected", "has"] for t in ts]
    # the same asked by the debug monitor, through mriPlatform.c, of some of them
    via = {"has": "phas", "connected": "pwaiting", "recv": "precv", "send": "psend", "stop": "pother"}
    def monitored(t): return [via[x.split(" ")[0]] + x[len(x.split(" ")[0]):] if x.split(" ")[0] in via and r.random() < 0.7 else x for x in t]
    hist += [monitored(t) + ["pwaiting", "phas", "pother", "connected"] for t in r.sample(ts, min(len(ts), 3000 if not THOROUGH else 100000))]
    hist += [monitored(random_comm(r)) for _ in range(400 if not THOROUGH else 20000)]
    hist += [random_comm(r) for _ in range(600 if not THOROUGH else 20000)]
    # all bytes both ways, in order, in bulk and one at a time
    allb = bytes(range(256))
    hist.append(["put " + allb.hex()] + ["recv"] * 256 + ["connected", "eof", "recv", "connected", "recv"])
    hist.append([x for b in allb for x in ("put %02x" % b, "has", "recv", "has")])
    hist.append(["send %x" % b for b in allb] + ["drain"] + ["csend %x" % b for b in allb] + ["drain"])
    hist.append([x for b in allb for x in ("send %x" % (b | 0xFFFFFF00 if b > 127 else b), "drain")])
    # every byte, whatever is wrong with the line
    for m in ("closed", "gone", "full"):
        hist.append(["out " + m] + [x for b in allb for x in ("send %x" % b, "csend %x" % b)] + ["out open"] + ["send %x" % b for b in r.sample(allb, 20)] + ["drain"])
    for m in ("nowait", "open"):
        hist.append(["in " + m] + [x for b in allb for x in ("init", "connected", "put %02x" % b, "connected", "recv", "connected")])
    hist.append(["file " + allb.hex()] + [x for b in allb for x in ("has", "recv", "connected")] + ["recv", "recv"])
    hist.append(["connected", "connected", "put 2b", "connected", "recv", "connected", "init", "connected", "recv", "connected"])
    hist.append(["put " + bytes(range(256)).hex()] + ["precv", "pwaiting"] * 256 + ["eof", "precv", "pwaiting", "phas", "init", "pwaiting"])
    hist.append(["psend %x" % b for b in allb] + ["drain"] + ["psend %x" % (b | 0xFFFFFF00) for b in allb if b > 127] + ["drain"])
    # far more than 16 bits count, both ways and in turn
    bulk = bytes(r.randrange(256) for _ in range(250)).hex()
    for n in (1, 2, 255, 256, 257, 65535, 65536, 70000) if not THOROUGH else (1, 2, 127, 128, 255, 256, 257, 32768, 65535, 65536, 65537, 70000, 200000):
        hist.append(["polls connected %x" % n, "polls has %x" % n, "polls stop %x" % n, "recvs %s %x" % (bulk, max(1, n // 250)), "connected", "has", "sends %s %x" % (bulk, max(1, n // 250)), "drain",
                     "recvs 2b %x" % n, "connected", "polls connected %x" % n, "polls has %x" % n, "sends 24 %x" % n, "recvs %s 3" % bulk, "connected", "put 2b", "recv", "eof", "recv", "connected"])
        hist.append(["recvs 2b %x" % n, "connected", "init", "connected", "polls has %x" % n, "put 2b", "polls has %x" % n, "polls connected %x" % n, "recv", "polls connected %x" % n])
    c.conform("comm", "CommTrace", hist, runner=in_scratch)
def in_scratch(exe, histories, trace, args=()):
    d = tempfile.mkdtemp(dir=os.path.dirname(trace))
    try: return vlib.run_harness(exe, histories, trace, args, cwd=d)
    finally: shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ C26
def words(v): return [v >> 16, v & 0xFFFF]
def unhx(s): return b"" if s in ("-", "") else bytes.fromhex(s)
def command(line):
    """(event, packet body) of a command line in the notation of harness/platform.c."""
    k, _, rest = line.partition(" ")
    a = rest.split()
    ev = {"ev": "session", "k": k}
    if k in ("?", "g"): return ev, k.encode()
    if k == "G":
        ev["d"] = list(unhx(a[0])); return ev, b"G" + a[0].encode()
    if k == "m":
        ev["a"] = words(int(a[0], 16)); ev["n"] = int(a[1], 16); return ev, b"m%x,%x" % (int(a[0], 16), ev["n"])
    if k in ("M", "X"):
        d = unhx(a[2]) if len(a) > 2 else b""
        ev["a"] = words(int(a[0], 16)); ev["n"] = int(a[1], 16); ev["d"] = list(d)
        body = d.hex().encode() if k == "M" else b"".join(b"}" + bytes([x ^ 0x20]) if x in b"$#}*" else bytes([x]) for x in d)
        return ev, b"%s%x,%x:%s" % (k.encode(), int(a[0], 16), ev["n"], body)
    if k in ("map", "xml"):
        ev["o"], ev["n"] = int(a[0], 16), int(a[1], 16)
        return ev, (b"qXfer:memory-map:read::%x,%x" if k == "map" else b"qXfer:features:read:target.xml:%x,%x") % (ev["o"], ev["n"])
    if k in ("Z", "z"):
        ev["t"] = int(a[0]); ev["a"] = words(int(a[1], 16)); ev["n"] = int(a[2], 16)
        return ev, b"%s%d,%x,%x" % (k.encode(), ev["t"], int(a[1], 16), ev["n"])
    ev["x"] = rest
    return ev, (k.encode() if k != "raw" else b"") + rest.encode()
def packet(body): return b"$" + body + b"#%02x" % (sum(body) & 255)
def show(b): return "".join(chr(x) if 32 <= x <= 126 else {10: "\n", 13: "\r", 9: "\t"}.get(x, "?%02x" % x) for x in b)

class Gdb:
    """The GDB end of a running program."""
    def __init__(self, exe, argv, cwd):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([exe.encode()] + argv, cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, bufsize=0)
        self.buf, self.gone, self.total = b"", False, 0
    def put(self, b):
        try: os.write(self.p.stdin.fileno(), b)
        except (BrokenPipeError, ValueError): pass
    def more(self, t):
        if self.gone: return False
        if not select.select([self.p.stdout], [], [], t)[0]: return False
        d = os.read(self.p.stdout.fileno(), 65536)
        if not d: self.gone = True
        self.buf += d; self.total += len(d)
        return bool(d)
    def command(self, ev, body, lead=b""):
        ev.update(r=[], con="", acks=0, naks=0, noise=0, badsum=0, gone=0)
        while self.more(0): pass
        ev["late"] = len(self.buf); self.buf = b""
        self.put(lead + packet(body))
        end = time.time() + 10
        while True:
            while self.buf:
                ch = self.buf[:1]
                if ch == b"$":
                    j = self.buf.find(b"#")
                    if j < 0 or len(self.buf) < j + 3: break
                    text, sum_ = self.buf[1:j], self.buf[j + 1:j + 3]
                    self.buf = self.buf[j + 3:]
                    if sum_.lower() != b"%02x" % (sum(text) & 255): ev["badsum"] += 1
                    if text[:1] == b"O" and text != b"OK" and len(text) > 1:
                        try: ev["con"] += show(bytes.fromhex(text[1:].decode("latin-1")))
                        except ValueError: ev["noise"] += 1
                        self.put(b"+"); continue
                    ev["r"].append(show(text))
                    self.put(b"+")
                    return ev
                ev["acks" if ch == b"+" else "naks" if ch == b"-" else "noise"] += 1
                self.buf = self.buf[1:]
            if not self.more(max(0, end - time.time())):
                if self.gone: ev["gone"] = 1; ev["noise"] += len(self.buf); return ev
                if time.time() >= end: return {"ev": "crash", "why": "no answer to %s" % show(body)[:80]}
    def leave(self, how):
        if how == "mid": self.put(b"$g#")
        if how == "bad": self.put(b"$m20000000,4#00")
        if how == "unacked": self.put(packet(b"g"))
        if how == "start": self.put(b"+$")
        if how == "both": self.p.stdout.close(); self.gone = True
        self.p.stdin.close()
        end = time.time() + 8
        while not self.gone and time.time() < end: self.more(max(0, end - time.time()))
        ended = 1
        try: self.p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired: ended = 0
        rc = self.p.returncode if ended else 0
        self.stop()
        self.err.seek(0)
        err = self.err.read()
        if ended and rc < 0 and not (how == "both" and rc == -13): ended = 0       # died of a signal
        # acknowledgements of what was sent last are not answers
        left = len(self.buf.replace(b"+", b"").replace(b"-", b""))
        return {"ev": "session", "k": "leave", "how": how, "ended": ended, "rc": rc, "left": left, "errors": err.count(b"ERROR:"), "seen": self.total}
    def stop(self):
        if self.p.poll() is None: self.p.kill()
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try: f.close()
            except OSError: pass

def run_sessions(exe, histories, trace, args=()):
    slow = 0
    with open(trace, "w") as out:
        for h, lines in histories:
            if slow >= 2: break                  # enough has been seen of a program that hangs
            out.write(json.dumps({"ev": "H", "h": h}) + "\n")
            d = tempfile.mkdtemp(dir=os.path.dirname(trace))
            files, argv, g, lead = [], [], None, b""
            try:
                for line in lines:
                    k, _, rest = line.partition(" ")
                    a = rest.split(" ")
                    if k == "file":
                        with open(os.path.join(d.encode(), unhx(a[0])), "wb") as f: f.write(unhx(a[1]))
                        files.append({"n": list(unhx(a[0])), "dir": False, "d": list(unhx(a[1]))}); continue
                    if k == "args": argv = [unhx(x) for x in a] if rest else []; continue
                    if k == "launch":
                        g = Gdb(exe, argv, d)
                        ev = {"ev": "session", "k": k, "args": [list(x) for x in argv], "files": files}
                    elif k == "connect":
                        early = len(g.buf) if not g.more(0) else len(g.buf)
                        lead = unhx(a[0]) + b"+"
                        ev = {"ev": "session", "k": k, "gone": int(g.gone), "early": early, "r": [], "con": ""}
                        if len(a) > 1: g.put(lead); lead = b""           # by itself, not together with the first command
                    elif k == "leave":
                        if lead: g.put(lead)
                        ev = g.leave(a[0])
                    else:
                        ev, body = command(line)
                        ev = g.command(ev, body, lead); lead = b""
                    out.write(json.dumps(ev) + "\n")
                    slow += ev["ev"] == "crash" or (k == "leave" and not ev["ended"])
                    if ev["ev"] == "crash": break
            finally:
                if g: g.stop()
                shutil.rmtree(d, ignore_errors=True)

HOW = ["idle", "idle", "mid", "bad", "unacked", "start", "both"]
def model_sessions(c, n):
    files, out = [], []
    for t in emitted(c, "SessionMC", {"BIG": "1" if THOROUGH else "0"}):
        if "files" in t: files = ["file %s %s" % (vlib.hexs(f["n"]), vlib.hexs(f["d"])) for f in t["files"]]
        else: out.append(t)
    r = c.rng
    if len(out) > n:
        other = [t for t in out if t["steps"][-1]["k"] == "leave" or len(t["steps"]) < 3]
        out = r.sample(out, n) + r.sample(other, min(len(other), n // 4))
    res = []
    for t in out:
        h = [f for f in files if any(bytes(a).hex() == f.split()[1] for a in t["conf"]["args"])]
        h.append("args " + " ".join(vlib.hexs(a) for a in t["conf"]["args"]))
        for e in t["steps"]:
            h.append({"launch": "launch", "connect": "connect -", "leave": "leave " + r.choice(HOW[:6])}.get(e["k"]) or p_platform.model_cmd(e))
        if not h[-1].startswith("leave"):
            if not any(x.startswith("connect") for x in h): h.append("connect -")
            h += ["map 0 4000", "g", "leave idle"]
        elif h[-2] == "launch" and h[-1] in ("leave start", "leave unacked"): h[-1] = "leave idle"
        res.append(h)
    return res
def random_session(r, n=None):
    line, files, rs = p_cmdline.random_line(r, good=r.choice([True, True, None]))
    h = ["file %s %s" % (p_cmdline.hx(k), p_cmdline.hx(v)) for k, v in files.items() if k in line and v is not None and len(k) < 200]
    h.append(("args " + " ".join(p_cmdline.hx(a) for a in line)).strip())
    h.append("launch")
    if r.random() < 0.1: return h + ["leave " + r.choice(["idle", "both"])]
    h.append("connect %s%s" % (r.choice(["-", "-", "2d", "00ff2324", "24672336372d"]), r.choice(["", " alone"])))
    spots = [(a, n) for a, n in rs if n] + [(0x20000000, 4), (0x70000000, 4)]
    def addr():
        a, m = r.choice(spots)
        return (a + r.choice([0, 0, 1, 2, m - 1, m - 4, m, -1, r.randrange(max(1, m))])) & 0xFFFFFFFF
    fp = False
    for _ in range(n or r.choice([3, 8, 20])):
        k = r.random()
        if k < 0.35: h.append("m %x %x" % (addr(), r.choice([1, 2, 4, 3, 8, 40])))
        elif k < 0.5:
            m = r.choice([1, 2, 4, 3, 7]); h.append("%s %x %x %s" % (r.choice("MMX"), addr(), m, p_platform.hx(r, m)))
        elif k < 0.6: h.append("g")
        elif k < 0.66: h.append("G " + p_platform.hx(r, 208))
        elif k < 0.72: h.append("?")
        elif k < 0.8: h.append(r.choice(["map 0 4000", "map 0 64", "map 64 64", "xml 0 4000", "raw qSupported:multiprocess+"]))
        else: h.append(p_platform.control(r))
    if r.random() < 0.5: h += ["m %x %x" % (a, min(m, 600)) for a, m in spots[:6]] + ["g"]
    h.append("leave " + r.choice(HOW))
    return h
def big_session(r, kind):
    """More regions, bytes or commands than 8 or 16 bits count."""
    if kind == "line": line, files, rs = p_cmdline.big_line(r)
    elif kind == "map":                # more regions than 8 bits count; the map read the way GDB reads it
        b, rs = p_image.make_dump(r, regions=0)
        n, at = r.choice([260, 300]), 0x20000000
        for _ in range(n):
            k = r.choice([1, 2, 4, 8]); b += p_image.large(r, at, k); rs.append((at, k)); at += k + r.choice([0, 4, 0x10000])
        line, files, rs = ["--bin", "i", "0", "--dump", "d"], {"i": r.randbytes(64), "d": b}, rs[:2] + rs[250:258] + rs[-4:] + [(0, 64)]
    else: line, files, rs = p_cmdline.random_line(r, good=True)
    h = ["file %s %s" % (p_cmdline.hx(k), p_cmdline.hx(v)) for k, v in files.items() if k in line and v is not None]
    h += [("args " + " ".join(p_cmdline.hx(a) for a in line)).strip(), "launch", "connect -", "raw qSupported:xmlRegisters=arm"]
    step = 0x1fe0 if kind == "map" else r.choice([0x400, 0xffb])
    for o in range(0, 66 * 330, step if kind == "map" else 0x1000): h.append("map %x %x" % (o, step))
    spots = [(a, n) for a, n in rs if n]
    def addr():
        if not spots: return 0x20000000
        a, m = r.choice(spots)
        return (a + r.choice([0, 0, m - 1, m - 4, m, 0xFFFF, 0x10000, 0xFFFE])) & 0xFFFFFFFF
    for _ in range(900 if kind == "long" else 40):
        k = r.random()
        if k < 0.5: h.append("m %x %x" % (addr(), r.choice([1, 2, 4, 3, 8, 40])))
        elif k < 0.75: m = r.choice([1, 2, 4, 3]); h.append("%s %x %x %s" % (r.choice("MX"), addr(), m, p_platform.hx(r, m)))
        else: h.append(r.choice(["g", "?", "c", "s", "Z 2 20000000 4", "raw vCont?", "xml 0 4000"]))
    return h + ["m %x %x" % (a, min(m, 600)) for a, m in spots[:8]] + ["g", "leave " + r.choice(HOW)]
def C26(c):
    r = c.rng
    hist = model_sessions(c, 500 if not THOROUGH else 12000)
    for _ in range(450 if not THOROUGH else 10000): hist.append(random_session(r))
    # gone at every point of a session
    for how in ("idle", "mid", "bad", "unacked", "start", "both"):
        for cut in range(0, 5):
            h = random_session(r, 4)
            while not any(x.startswith("connect") for x in h): h = random_session(r, 4)
            k = [i for i, x in enumerate(h) if x.startswith("connect")][0]
            h = h[:k + 1 + cut] + ["leave " + how]
            if cut == 0 and how in ("unacked", "mid", "bad"): h[k] = "connect - alone"
            hist.append(h)
    for kind in ["line"] * 8 + ["map"] + ["long"] * 3: hist += [big_session(r, kind) for _ in range(1 if not THOROUGH else 12)]
    c.conform("session", "SessionTrace", hist, exe=c.build.program(), runner=run_sessions, label="program")

def replay(c, rep):
    if rep["harness"] == "comm": c.conform("comm", rep["spec"], [rep["history"]], runner=in_scratch)
    else: c.conform("session", rep["spec"], [rep["history"]], exe=c.build.program(), runner=run_sessions)
