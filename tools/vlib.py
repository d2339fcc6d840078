"""Shared machinery: build harnesses from /repo's working tree, run histories through them, let TLC judge the traces."""
import concurrent.futures, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CRASHDEBUG_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CORES = 8

class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""

# ---------------------------------------------------------------------------------------------------- building
INC = ["-I" + REPO + "/include", "-I" + VERIF + "/stubs/shim", "-I" + VERIF + "/stubs/mri/include",
       "-I" + REPO + "/libCrashDebug/src", "-I" + VERIF + "/stubs/CrashCatcher", "-I" + REPO + "/libCrashDebug/mocks"]
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]

class Build:
    """Compiles /repo's sources into a private scratch directory, removed at exit."""
    def __init__(self, tmp):
        self.tmp = tmp
        self.cache = {}

    def _cc(self, src, flags):
        key = (src, tuple(flags))
        if key not in self.cache:
            obj = os.path.join(self.tmp, "o_" + hashlib.md5(repr(key).encode()).hexdigest()[:12] + ".o")
            cmd = ["gcc"] + (["-std=gnu++14"] if src.endswith(".cpp") else ["-std=gnu99"]) + ["-g", "-O2", "-w", "-include", "stdlib.h"] + flags + INC + ["-c", src, "-o", obj]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise CheckError("cannot compile %s:\n%s" % (src, r.stderr[-3000:]))
            self.cache[key] = obj
        return self.cache[key]

    def link(self, name, srcs, flags):
        exe = os.path.join(self.tmp, name)
        if os.path.exists(exe):
            return exe
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            objs = list(ex.map(lambda s: self._cc(s, flags), srcs))
        r = subprocess.run(["g++" if any(s.endswith(".cpp") for s in srcs) else "gcc", "-o", exe] + [f for f in flags if f.startswith(("-f", "-Wl"))] + objs, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("cannot link %s:\n%s" % (name, r.stderr[-3000:]))
        return exe

    def lib_sources(self):
        return sorted(glob.glob(REPO + "/libCrashDebug/src/*.c")) + sorted(glob.glob(REPO + "/libcommon/src/*.c"))

    def harness(self, name, extra=None, main_support=True, mocks=False, flags=None):
        """A harness from /verif/harness linked with all of the project's library code."""
        srcs = [os.path.join(VERIF, "harness", name + ".c")]
        if not os.path.exists(srcs[0]): srcs[0] += "pp"
        if mocks == "scripted":         # the scripted line and console
            srcs += sorted(glob.glob(REPO + "/libCrashDebug/mocks/*.c*")) + sorted(glob.glob(REPO + "/libmocks/src/*.c")) + sorted(glob.glob(REPO + "/libcommon/src/*.c"))
            return self.link("h_" + name, srcs, SAN if flags is None else flags)
        if mocks:                       # the stand-ins and libcommon alone
            srcs += sorted(glob.glob(REPO + "/libmocks/src/*.c")) + sorted(glob.glob(REPO + "/libcommon/src/*.c"))
            return self.link("h_" + name, srcs, SAN if flags is None else flags)
        srcs += self.lib_sources()
        if main_support:
            srcs += [s for s in sorted(glob.glob(REPO + "/main/*.c")) if os.path.basename(s) != "main.c"]
        srcs += [VERIF + "/stubs/mri/mricore.c"] + (extra or [])
        wrap = ["-Wl,--wrap=__mriDebugException"] if name == "comm" else []      # that harness is the debug monitor itself
        return self.link("h_" + name, srcs, (SAN if flags is None else flags) + wrap)

    def program(self):
        """The complete CrashDebug program (no sanitizer, see DESIGN.md)."""
        srcs = sorted(glob.glob(REPO + "/main/*.c")) + self.lib_sources() + [VERIF + "/stubs/mri/mricore.c"]
        return self.link("CrashDebug", srcs, [])

# ---------------------------------------------------------------------------------------------------- running
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=96:abort_on_error=0:handle_abort=1",
           LC_ALL="C")

def crash_reason(rc, err):
    if rc == 97:
        return "the call did not return (hang)"
    m = re.search(r"ERROR: AddressSanitizer: (\S+).*?\n(?:.*\n)*?\s+#\d+ \S+ in (\S+) (?:/\S*/)?(\S+)", err)
    if m:
        return "AddressSanitizer: %s in %s" % (m.group(1), m.group(2))
    m = re.search(r"Assertion .*failed", err)
    if m:
        return m.group(0)[:150].replace('"', "'").replace("\\", "/")
    return "process ended with status %d" % rc

def run_harness(exe, histories, trace, args=(), limit=6, cwd=None):
    """Run histories (lists of command lines, ids = list of (id, lines)) and append their events to `trace`.
    A crash or hang becomes a 'crash' event of the history it happened in."""
    open(trace, "w").close()
    todo = list(histories)
    crashes = 0
    while todo and crashes < limit:
        text = "".join("H %d\n%s" % (i, "".join(c + "\n" for c in cmds)) for i, cmds in todo)
        r = subprocess.run([exe, trace] + list(args), input=text.encode("latin-1"), stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, env=ENV, cwd=cwd)
        if r.returncode == 0:
            break
        data = open(trace, "rb").read()
        if data and not data.endswith(b"\n"):
            data = data[:data.rfind(b"\n") + 1]
        last = None
        for m in re.finditer(rb'\{"ev":"H","h":(-?\d+)', data):
            last = int(m.group(1))
        why = crash_reason(r.returncode, r.stderr.decode("latin-1"))
        if last is None and (r.returncode in (96, 97) or r.returncode < 0):      # the code under test fell over while it was made ready
            last = todo[0][0]
            data = (json.dumps({"ev": "H", "h": last}) + "\n").encode()
        if last is None:
            raise CheckError("harness failed before the first history: " + why + r.stderr.decode("latin-1")[-500:])
        with open(trace, "wb") as f:
            f.write(data)
            f.write((json.dumps({"ev": "crash", "why": why}) + "\n").encode())
        crashes += 1
        k = [i for i, _ in todo].index(last)
        todo = todo[k + 1:]
    return crashes

# ---------------------------------------------------------------------------------------------------- TLC
def tlc(module, cfg=None, env=None, tmp=None, heap="3g", workers=1, extra=(), timeout=3000 if THOROUGH else 880):
    meta = tempfile.mkdtemp(prefix="tlc_", dir=tmp)
    cmd = ["java", "-Xmx" + heap, "-Xss1000m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.stdout + r.stderr, r.returncode

def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)

def model_check(module, cfg, tmp, env=None, workers=1, heap="4g"):
    """Exhaustive run of a bounded configuration; returns (transitions, states, tests printed)."""
    out, rc = tlc(module, cfg, env=env, tmp=tmp, workers=workers, heap=heap)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("the specification itself fails (%s/%s):\n%s" % (module, cfg, out[-3000:]))
    tests = []
    for line in out.splitlines():
        if line.startswith('"TEST '):
            tests.append(json.loads(json.loads(line)[5:]))
    gen, distinct = tlc_stats(out)
    return gen, distinct, tests

def validate(module, trace, tmp, env=None, cfg=None):
    """TLC decides whether the recorded trace is a behaviour of the specification; returns (states, [(history, message)])."""
    n = sum(1 for _ in open(trace, "rb"))
    if n == 0:
        return 0, []
    out, rc = tlc(module, cfg or module, env=dict(env or {}, TRACE=trace), tmp=tmp)
    bad = []
    for line in out.splitlines():
        m = re.match(r'"?MISMATCH (-?\d+) (.*)', line)
        if m:
            bad.append((int(m.group(1)), m.group(2)[:2000]))
    if rc != 0 or "No error has been found" not in out:
        k = out.find("Error:")
        raise CheckError("TLC could not judge the trace with %s:\n%s" % (module, out[k:k + 2500] if k >= 0 else out[-2500:]))
    return tlc_stats(out)[1], bad

# ---------------------------------------------------------------------------------------------------- checks
class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
        self.build = Build(self.tmp)
        self.rng = random.Random(SEED * 1000003 + int(prop[1:]))
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.notes = {}
        self.violations = []     # (description, replay dict)
        self.known = load_known(prop)
        self.before = []         # replay: histories to run first

    def path(self, name):
        return os.path.join(self.tmp, name)

    def mc(self, module, cfg=None, env=None, workers=1):
        gen, distinct, tests = model_check(module, cfg or module, self.tmp, env=env, workers=workers)
        self.transitions += gen
        self.states += distinct
        self.notes.setdefault("exhaustive_models", []).append({"spec": module, "config": cfg or module, "env": env or {},
                                                             "states": distinct, "transitions": gen, "tests_emitted": len(tests)})
        return tests

    def conform(self, harness, module, histories, shards=CORES, args=(), env=None, label="", exe=None, runner=None):
        """histories: list of lists of command lines. Runs them on the real code and has TLC judge the traces."""
        if not histories:
            raise CheckError("no histories for " + module)
        runner = runner or run_harness
        if self.before:
            histories, shards = self.before + histories, 1
        exe = exe or self.build.harness(harness)
        ids = list(enumerate(histories))
        shards = max(1, min(shards, len(ids)))
        parts = [ids[k::shards] for k in range(shards)]
        def job(k):
            trace = self.path("trace_%s_%s_%d.ndjson" % (module, label, k))
            runner(exe, parts[k], trace, args)
            n = sum(1 for _ in open(trace, "rb"))
            st, bad = validate(module, trace, self.tmp, env)
            return n, st, bad, trace
        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(job, range(shards)))
        bad = []
        for n, st, b, trace in res:
            self.events += n
            self.states += st
            self.transitions += max(0, st - 1)
            bad += b
        self.traces += len(histories)
        self.notes.setdefault("conformance", []).append({"spec": module, "histories": len(histories), "events": sum(r[0] for r in res), "label": label})
        if histories:
            k = self.rng.randrange(len(histories))
            self.samples.append({"spec": module, "history": [c[:200] for c in histories[k][:12]]})
        # Confirm each rejected history on its own before reporting it, or, if it takes what came before, after that again.
        seen, late, t0 = set(), [], time.time()
        for h, msg in bad:
            if h in seen or len(self.violations) >= 5 or len(seen) >= 60 or time.time() - t0 > 150:
                continue
            seen.add(h)
            trace = self.path("confirm_%d.ndjson" % h)
            runner(exe, [(h, histories[h])], trace, args)
            _, again = validate(module, trace, self.tmp, env)
            if again:
                self.violate(again[0][1], {"harness": harness, "spec": module, "args": list(args), "env": env or {}, "history": histories[h]})
            else:
                late.append(h)
        if late and not self.violations:
            h = late[0]
            before = [q for q in parts[h % shards] if q[0] <= h]
            trace = self.path("confirm.ndjson")
            runner(exe, before, trace, args)
            _, again = validate(module, trace, self.tmp, env)
            again = [m for k, m in again if k == h]
            if again:
                self.violate(again[0], {"harness": harness, "spec": module, "args": list(args), "env": env or {}, "history": histories[h],
                                        "before": [q[1] for q in before[:-1]]})
        for _, _, _, trace in res:
            os.unlink(trace)
        return bad

    def violate(self, msg, replay):
        for k in self.known:
            if k["match"] in json.dumps(replay) or k["match"] in msg:
                line = "KNOWN-FINDING: property=%s %s" % (self.prop, k["what"])
                if line not in self.notes.setdefault("known_findings", []):
                    self.notes["known_findings"].append(line)
                    print(line)
                return
        self.violations.append((msg, replay))

    def finish(self):
        rdir = os.path.join(VERIF, "evidence", "replay")
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:6], "events_validated": self.events}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": "model_checking",
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
              "assumptions": ["the mri and CrashCatcher submodules are replaced by the stand-ins in /verif/stubs (validated against the shipped binary, see DESIGN.md)",
                              "only the histories listed in coverage were executed on the real code; the exhaustive part is over the bounded models named there"]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for i, (msg, replay) in enumerate(self.violations):
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, "%s_%d.json" % (self.prop, i))
            with open(p, "w") as f:
                json.dump(dict(replay, property=self.prop, message=msg), f, indent=1)
            print("  " + msg[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s: %d states, %d transitions, %d histories (%d events) conform; %d violations; %.1f s" %
              (self.prop, self.states, self.transitions, self.traces, self.events, len(self.violations), time.time() - self.t0))
        shutil.rmtree(self.tmp, ignore_errors=True)
        return 1 if self.violations else 0

def load_known(prop):
    """known_findings.jsonl: {"property","match","what"} per recorded finding; 'fixed:' lines suppress nothing."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k["property"] == prop:
                    res.append(k)
    return res

def w2hex(w):
    return "%x" % (w[0] * 65536 + w[1])
def hexs(bs):
    return bytes(bs).hex() if len(bs) else "-"
