"""Shared machinery of the checks: building harnesses from /repo's working
tree, running TLC, replaying behaviours in the real code, and reporting."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
KNOWN = os.path.join(VERIF, "known_findings.txt")
CPUS = os.cpu_count() or 4

CXX = "clang++-18"
CXXFLAGS = [
    "-std=c++17", "-O0", "-g1", "-include", "array", "-w", "-D_GLIBCXX_ASSERTIONS",
    "-fsanitize=address,undefined", "-fno-sanitize=vptr,function,enum",
    "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer",
]
RUN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:hard_rss_limit_mb=4000",
    "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=86",
}


class CheckError(Exception):
    """The check could not decide (never reported as a violation)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------------
# Building

def _sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def _files(root, exts):
    out = []
    for d, _, fs in os.walk(root):
        out += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return sorted(out)


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def _proto_closure(pdir, names):
    todo, seen = list(names), []
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.append(n)
        with open(os.path.join(pdir, n + ".proto")) as f:
            todo += re.findall(r'^\s*import\s+(?:public\s+)?"([^"]+)\.proto"', f.read(), re.M)
    return sorted(seen)


def build(name, protos=(), src=(), sources=(), otherwise=()):
    """Compile harness/<name>.cpp against REPO; returns the binary's path.
    protos: the messages used; src: globs of /repo sources to compile in;
    otherwise: flags to compile it with if it does not compile (which ask
    less of the code)."""
    try:
        return build_(name, protos, src, sources, [])
    except CheckError:
        if not otherwise:
            raise
        log("%s does not compile, trying %s" % (name, otherwise))
        return build_(name, protos, src, sources, list(otherwise))


def build_(name, protos, src, sources, more):
    t0 = time.time()
    inc = os.path.join(REPO, "include")
    pdir = os.path.join(inc, "ygopen", "proto")
    inputs = _files(inc, (".hpp", ".h", ".inl", ".proto", ".ipp"))
    inputs += _files(os.path.join(REPO, "src"), (".cpp", ".inl", ".hpp", ".h"))
    inputs += glob.glob(os.path.join(HARNESS, "*.hpp")) + [os.path.join(HARNESS, name + ".cpp")]
    inputs += [os.path.join(HARNESS, s) for s in sources]
    key = _sha(inputs, " ".join(CXXFLAGS + more) + name)
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s-%s" % (name, key))
    binary = os.path.join(out, name)
    with open(os.path.join(BUILD, name + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(binary):
            return binary
        old = sorted(glob.glob(os.path.join(BUILD, name + "-*")), key=os.path.getmtime)
        for d in old[:-2]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        allp = glob.glob(os.path.join(pdir, "*.proto"))
        _run(["protoc", "-I" + pdir, "--cpp_out=" + out] + allp)
        units = [os.path.join(out, p + ".pb.cc") for p in _proto_closure(pdir, protos)]
        for g in src:
            units += sorted(glob.glob(os.path.join(REPO, g)))
        units += [os.path.join(HARNESS, s) for s in sources]
        units.append(os.path.join(HARNESS, name + ".cpp"))

        def comp(u):
            o = os.path.join(out, os.path.basename(u) + ".o")
            flags = CXXFLAGS if not u.endswith(".pb.cc") else \
                [f for f in CXXFLAGS if not f.startswith("-fsanitize") and "sanitize" not in f]
            _run([CXX] + flags + more + ["-I" + inc, "-I" + out, "-I" + HARNESS, "-c", u, "-o", o])
            return o
        # Biggest units first.
        units.sort(key=lambda u: u.endswith(".pb.cc"))
        with cf.ThreadPoolExecutor(CPUS) as ex:
            objs = list(ex.map(comp, units))
        _run([CXX] + CXXFLAGS + objs + ["-lprotobuf", "-lpthread", "-o", binary + ".tmp"])
        for o in objs:
            os.remove(o)
        os.rename(binary + ".tmp", binary)
    log("built %s in %.1fs" % (name, time.time() - t0))
    return binary


# --------------------------------------------------------------------------
# TLC

JAVA = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss256m"]
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def _tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(_tla(x) for x in sorted(v)) + "}"
    if isinstance(v, str) and not v.startswith("<-"):
        return '"%s"' % v
    return str(v)


def cfg_text(spec, consts, extra=""):
    lines = [spec, "CHECK_DEADLOCK FALSE", extra]
    if consts:
        lines.append("CONSTANTS")
    for k, v in consts.items():
        lines.append("  %s %s" % (k, v) if isinstance(v, str) and v.startswith("<-") else
                     "  %s = %s" % (k, _tla(v)))
    return "\n".join(lines) + "\n"


_seq = [0]


def _tlc(module, cfg, args, timeout, heap="3g"):
    _seq[0] += 1
    d = os.path.join(BUILD, "tlc", "%d-%d-%d" % (os.getpid(), _seq[0], random.getrandbits(30)))
    os.makedirs(d)
    try:
        c = os.path.join(d, "x.cfg")
        with open(c, "w") as f:
            f.write(cfg)
        outp = os.path.join(d, "out")
        cmd = JAVA + ["-Xmx" + heap, "-cp", JAR, "tlc2.TLC"] + args + \
            ["-noGenerateSpecTE", "-metadir", os.path.join(d, "states"), "-config", c,
             os.path.join(SPEC, module + ".tla")]
        for attempt in range(3):
            with open(outp, "w") as f:
                try:
                    r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=d)
                except subprocess.TimeoutExpired:
                    raise CheckError("TLC timed out on %s" % module)
            if r.returncode in (0, 10, 11, 12, 13, 75, 76, 77, 150, 151, 152, 153):
                break                      # TLC's own verdicts; anything else is a JVM that did not get to run
            shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
            time.sleep(1 + 2 * attempt)
        with open(outp) as f:
            text = f.read()
        return r.returncode, text
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _records(text):
    recs, other = [], []
    for line in text.split("\n"):
        if line.startswith('"{') or line.startswith('"['):
            recs.append(json.loads(json.loads(line)))
        else:
            other.append(line)
    return recs, "\n".join(other)


def _check_tlc(module, rc, other):
    if rc != 0 or "Error:" in other:
        raise CheckError("the model itself fails (%s, rc %d):\n%s" % (module, rc, other[max(0, other.find("Error:") - 700):][:2000]))


def tlc_mc(module, consts, spec="SPECIFICATION Spec", invariants=(), view=None, properties=(),
           constraint=None, workers=None, timeout=800, heap="6g", seed=1):
    """Exhaustive model checking; returns (records, {states, transitions, depth})."""
    extra = ""
    if view:
        extra += "VIEW %s\n" % view
    if invariants:
        extra += "INVARIANTS %s\n" % " ".join(invariants)
    if properties:
        extra += "PROPERTIES %s\n" % " ".join(properties)
    if constraint:
        extra += "CONSTRAINT %s\n" % constraint
    t0 = time.time()
    rc, text = _tlc(module, cfg_text(spec, consts, extra), ["-workers", str(workers or CPUS), "-seed", str(seed)],
                    timeout, heap)
    recs, other = _records(text)
    _check_tlc(module, rc, other)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", other)
    if not m or m.group(3) != "0":
        raise CheckError("TLC did not finish on %s:\n%s" % (module, other[-3000:]))
    dm = re.search(r"depth of the complete state graph search is (\d+)", other)
    stats = {"module": module, "states": int(m.group(2)), "transitions": int(m.group(1)),
             "depth": int(dm.group(1)) if dm else 0, "wall_s": round(time.time() - t0, 2)}
    log("TLC %s: %s" % (module, stats))
    return recs, stats


def scramble(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def tlc_gen(jobs, timeout=600):
    """jobs: list of (module, consts, num, depth, seed). Runs TLC -simulate on
    each, in parallel, one worker each (deterministic). Returns the list of
    record lists."""
    t0 = time.time()

    def one(j):
        module, consts, num, depth, seed = j
        start = "INIT GInit\nNEXT GNext" if module.startswith("Undoable") else "INIT Init\nNEXT Next"
        rc, text = _tlc(module, cfg_text(start, consts),
                        ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed),
                         "-workers", "1"], timeout, "2g")
        recs, other = _records(text)
        _check_tlc(module, rc, other)
        return recs
    with cf.ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(one, jobs))
    log("TLC generated %d records in %.1fs (%s)" %
        (sum(map(len, res)), time.time() - t0, ",".join(sorted({j[0] for j in jobs}))))
    return res


def tlc_eval(module, consts, timeout=600, heap="3g"):
    """One evaluation of a constant-level module (ASSUME PrintT...)."""
    rc, text = _tlc(module, cfg_text("", consts), ["-workers", "1"], timeout, heap)
    recs, other = _records(text)
    _check_tlc(module, rc, other)
    return recs


def split_sessions(recs):
    out = []
    for r in recs:
        if r["n"] == 1:
            out.append([])
        out[-1].append(r)
    return out


# --------------------------------------------------------------------------
# Replaying

class Run:
    """One harness execution over a list of inputs."""

    def __init__(self, outs, rc, err, timed_out):
        self.outs, self.rc, self.err, self.timed_out = outs, rc, err, timed_out

    def why(self):
        if self.timed_out:
            return "hang"
        for line in self.err.split("\n"):
            if "Assertion" in line or "runtime error" in line or "ERROR: AddressSanitizer" in line \
                    or "terminate called" in line or "CHECK failed" in line or "FATAL" in line:
                return line.strip()[:300]
        return "exit %s %s" % (self.rc, self.err.strip()[-300:])


# Seconds for one process; quick sessions take a few seconds in all.
LONG, ALONE = (1200, 60) if os.environ.get("VERIF_TIER") == "thorough" else (75, 30)


class Enough(Exception):
    """What was found decides the check: no need to look for more."""


def run(binary, inputs, timeout=ALONE):
    data = "\n".join(json.dumps(i, separators=(",", ":")) for i in inputs) + "\n"
    env = dict(os.environ, **RUN_ENV)
    to = False
    try:
        r = subprocess.run([binary], input=data.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, env=env)
        out, err, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc, to = e.stdout or b"", e.stderr or b"", -1, True
    lines = out.decode("utf-8", "replace").split("\n")
    tail = lines.pop()  # an unfinished line does not count
    del tail
    outs = [json.loads(x) for x in lines]
    if rc in (70, 71, 72, 73, 74):
        raise CheckError("harness refused an input: %s" % err.decode("utf-8", "replace")[-500:])
    if rc == 0 and len(outs) != len(inputs):
        raise CheckError("harness answered %d of %d inputs" % (len(outs), len(inputs)))
    return Run(outs, rc, err.decode("utf-8", "replace"), to)


def run_sessions(binary, sessions, timeout=LONG, max_crashes=40):
    """sessions: list of input lists. Yields (index, outs, crash) for each:
    crash is None or the reason the harness died at input len(outs).
    Sessions are sharded over the processors; a session whose harness died is
    not retried, the ones after it run in a fresh process. A session that was
    running when a shard's time ran out is run again on its own, and only if it
    runs out again is it a hang (a shard may just have been slow)."""
    n = len(sessions)
    results = [None] * n
    shards = [list(range(i, n, CPUS)) for i in range(min(CPUS, n))]

    def work(idx):
        todo = list(idx)
        crashes = 0
        slow = 0
        while todo:
            flat = [x for i in todo for x in sessions[i]]
            r = run(binary, flat, timeout)
            k = 0
            done = 0
            for i in todo:
                m = len(sessions[i])
                if k + m <= len(r.outs):
                    results[i] = (r.outs[k:k + m], None)
                    k += m
                    done += 1
                    continue
                done += 1
                if r.timed_out:
                    slow += 1
                    r = run(binary, sessions[i], ALONE)
                    k = 0
                    if r.rc == 0:
                        results[i] = (r.outs, None)
                        break
                results[i] = (r.outs[k:], r.why())
                crashes += 1
                break
            todo = todo[done:]
            if crashes >= max_crashes or r.timed_out or slow >= 2:
                break
    with cf.ThreadPoolExecutor(CPUS) as ex:
        list(ex.map(work, shards))
    for i in range(n):
        if results[i] is not None:
            yield i, results[i][0], results[i][1]


HARNESSES = {
    "h_bits": dict(protos=["duel_data"]),
    "h_board": dict(protos=["duel_msg"]),
    "h_codec": dict(protos=["duel_msg", "duel_answer"], src=["src/codec/*.cpp"]),
    "h_ctx": dict(protos=["duel_msg"]),
    "h_duel": dict(protos=["duel_msg", "duel_answer"], src=["src/codec/*.cpp"]),
    "h_frame": dict(protos=["duel_data"]),
    "h_query": dict(protos=["duel_msg"], otherwise=["-DVERIF_PLAIN_LISTS"]),
    "h_room": dict(protos=["room"]),
    "h_undo": dict(),
}


def harness(name):
    return build(name, **HARNESSES[name])


# --------------------------------------------------------------------------
# Reporting

class Ctx:
    def __init__(self, prop, level):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = scramble(os.environ["VERIF_SEED"]) & 0x7FFFFFFF
        self.level = level
        self.rng = random.Random(scramble("ctx", prop, self.seed))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.models = []
        self.violations = []
        self.known = []
        self.kinds = {}
        self.skipped = 0
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, stats):
        self.cov["states"] += stats["states"]
        self.cov["transitions"] += stats["transitions"]
        self.models.append(stats)

    def seed_for(self, *parts):
        return scramble(self.prop, self.seed, *parts)

    def count(self, kind, n=1):
        self.kinds[kind] = self.kinds.get(kind, 0) + n

    def traces(self, n=1):
        self.cov["traces_validated_against_impl"] += n

    def sample(self, s):
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(s)

    def violation(self, what, harness, inputs, extra=None, key=None):
        """Record a violation with the inputs that reproduce it."""
        if key is not None and any(k == key for k in known_keys(self.prop)):
            if key not in self.known:
                self.known.append(key)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, key), flush=True)
            return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.json" % (self.prop, self.seed, len(self.violations)))
        if len(self.violations) < 5:
            with open(path, "w") as f:
                json.dump({"property": self.prop, "what": what, "harness": harness,
                           "inputs": inputs, "details": extra}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            log("   " + str(what)[:2000])
        self.violations.append(what)
        if "hang" in str(what) or time.time() - self.t0 > 400 and not self.thorough:
            raise Enough

    def finish(self):
        cov = dict(self.cov)
        cov["kinds"] = self.kinds
        cov["models"] = self.models
        cov["sessions_left_to_other_checks"] = self.skipped
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d violations, %d traces, %d states, %.1fs" %
              (self.prop, self.tier, len(self.violations), cov["traces_validated_against_impl"],
               cov["states"], time.time() - self.t0))
        return 1 if self.violations else 0


_known_cache = {}


def known_keys(prop):
    if prop not in _known_cache:
        keys = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for line in f:
                    m = re.match(r"finding: property=(\S+) (.*)$", line.rstrip("\n"))
                    if m and m.group(1) == prop:
                        keys.append(m.group(2))
        _known_cache[prop] = keys
    return _known_cache[prop]


def replay(ctx, name, binary, sessions, inputs, judge, on_ok=None, max_violations=5):
    """Run inputs (one list per session) and judge each session:
    judge(session, outs, crash) -> (steps, what or None, ended early).
    What is reported has to repeat in a run of its own."""
    for i, outs, crash in run_sessions(binary, inputs):
        s = sessions[i]
        steps, bad, early = judge(s, outs, crash)
        if on_ok:
            on_ok(s, steps)
        if bad:
            one = inputs[i][:steps + 1]
            again = run(binary, one)
            _, bad2, _ = judge(s[:steps + 1] if isinstance(s, list) else s, again.outs,
                               again.why() if again.rc else None)
            if not bad2:
                if crash == "hang":     # slow, then, under load
                    ctx.skipped += 1
                    continue
                raise CheckError("not reproducible: " + bad)
            ctx.violation(bad2, name, one, s[steps] if isinstance(s, list) else s)
            if len(ctx.violations) >= max_violations:
                return
        elif early:
            ctx.skipped += 1
        else:
            ctx.traces()
