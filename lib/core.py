"""Shared machinery: building the harness from /repo's working tree, running cases through the
real code, running TLC (sharded), and recording verdicts and evidence."""
import json, os, subprocess, sys, time, tempfile, shutil, re, threading, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("BJ_BUILD", os.path.join(VERIF, ".build"))
SCRATCH = os.path.join(VERIF, ".scratch")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 2))


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def scratch(name):
    d = os.path.join(SCRATCH, f"{name}-{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    return d


def build(package="harness", binary="bjh"):
    """Build a harness crate against /repo's working tree. A failure to build is a tool error."""
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.79.0", CARGO_NET_OFFLINE="true")
    env.pop("CARGO_TARGET_DIR", None)
    d = os.path.join(VERIF, package)
    t = os.path.join(BUILD, package)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--target-dir", t],
                       cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("build failed:\n" + (r.stdout if len(r.stdout) < 6000 else r.stdout[:3500] + "\n...\n" + r.stdout[-2000:]))
    return os.path.join(t, "debug", binary)


# ------------------------------------------------------------------ running the real code
def _run_shard(binary, cases, timeout, out):
    """One process over a list of cases; a dead or hung process is charged to the first case
    without an answer, and the rest go on in a new process."""
    i = hangs = 0
    while i < len(cases):
        if hangs >= 12:     # enough to report; the rest would take for ever
            out[cases[i]["id"]] = {"id": cases[i]["id"], "panic": "hang (not tried after many hangs)"}
            i += 1
            continue
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL)
        batch = cases[i:]

        def feed(p=p, batch=batch):
            try:
                for c in batch:
                    p.stdin.write((json.dumps(c) + "\n").encode())
                p.stdin.close()
            except (BrokenPipeError, OSError):
                pass
        th = threading.Thread(target=feed, daemon=True)
        th.start()
        done = 0
        state = {"t": time.time(), "hung": False, "end": False}

        def watch(p=p, state=state):
            while not state["end"]:
                if time.time() - state["t"] > (timeout if hangs == 0 else min(timeout, 4)):
                    state["hung"] = True
                    p.kill()
                    return
                time.sleep(0.2)
        w = threading.Thread(target=watch, daemon=True)
        w.start()
        for line in p.stdout:
            r = json.loads(line)
            out[r["id"]] = r
            done += 1
            state["t"] = time.time()
        state["end"] = True
        p.wait()
        i += done
        if i < len(cases):
            c = cases[i]
            hangs += state["hung"]
            out[c["id"]] = {"id": c["id"], "panic": "hang (no answer within %ss)" % timeout} if state["hung"] \
                else {"id": c["id"], "panic": "process ended with status %s" % p.returncode}
            i += 1


def observe(binary, cases, timeout=60, procs=CORES):
    """Run every case; returns {id: observation}. Ids are assigned here."""
    for i, c in enumerate(cases):
        c["id"] = i
    out = {}
    shards = [cases[i::procs] for i in range(procs)]
    with ThreadPoolExecutor(procs) as ex:
        list(ex.map(lambda s: _run_shard(binary, s, timeout, out), [s for s in shards if s]))
    if len(out) != len(cases):
        raise ToolError("harness lost cases")
    return [out[i] for i in range(len(cases))]


# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.lines = []      # JSON values printed by the specification
        self.text = ""
        self.violation = None


def tlc(module, cfg_text, env=None, name="m", workers=1, timeout=800, heap="3g", extra=()):
    """Run TLC on spec/<module>.tla with the given configuration. Values printed with
    PrintT(ToJson(..)) come back decoded. An invariant of the specification itself that fails is
    reported in .violation; anything else that is not a clean end is a tool error."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch("tlc"))
    cfg = os.path.join(d, "m.cfg")
    open(cfg, "w").write(cfg_text)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + d, "-Xss256m", "-Xmx" + heap, "-cp", JARS,
           "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
           "-config", cfg, *extra, module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    # TLC wants modules in its working directory
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    text = p.stdout.decode("utf8", "replace")
    r = TlcResult()
    r.text = text
    rest = []
    for line in text.split("\n"):
        if line.startswith('"{') or line.startswith('"['):
            r.lines.append(json.loads(json.loads(line)))
        else:
            rest.append(line)
    r.text = text = "\n".join(rest)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    if m:
        r.transitions, r.states = int(m.group(1)), int(m.group(2))
    m = re.search(r"Invariant (\S+) is violated|(\S+) is violated|Deadlock reached", text)
    if m:
        r.violation = m.group(0)
    elif "No error has been found" not in text and not re.search(r"The number of states generated: (\d+)", text):
        at = text.find("Error:")
        raise ToolError(f"TLC failed on {module}:\n" + (text[at:at + 2500] if at >= 0 else text[-3500:]))
    m = re.search(r"The number of states generated: (\d+)", text)
    if m and not r.transitions:
        r.transitions = r.states = int(m.group(1))
    shutil.rmtree(d, ignore_errors=True)
    return r


def trace_check(module, lines, name="t", const="", shards=CORES, timeout=800, per=None):
    """Validate a recorded trace (a list of JSON lines) against spec/<module>.tla, split over
    several TLC processes. Each line is one step of the trace specification; the specification
    prints a record for each line it rejects. Returns (rejections, states, transitions)."""
    if not lines:
        return [], 0, 0
    shards = max(1, min(shards, len(lines)))
    if per:
        shards = max(1, min(shards, (len(lines) + per - 1) // per))
    d = tempfile.mkdtemp(prefix="trace-", dir=scratch("trace"))
    cfg = "SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n" + const

    def one(k):
        part = lines[k::shards]
        f = os.path.join(d, f"{k}.ndjson")
        with open(f, "w") as h:
            for x in part:
                h.write(json.dumps(x) + "\n")
        r = tlc(module, cfg, env={"TRACE": f}, name=f"{name}{k}", timeout=timeout)
        if r.violation:
            raise ToolError(f"{module}: {r.violation}\n{r.text[-2000:]}")
        if r.states < len(part) + 1:
            raise ToolError(f"{module}: trace not consumed ({r.states} of {len(part)})\n{r.text[-2000:]}")
        return r
    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, range(shards)))
    shutil.rmtree(d, ignore_errors=True)
    bad = [x for r in rs for x in r.lines]
    return bad, sum(r.states for r in rs), sum(r.transitions for r in rs)


# ------------------------------------------------------------------ verdicts
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []
        self.assumptions = []
        self.extra = {}
        self.level = "model_checking"
        self.findings = [f for f in known_findings()["findings"] if f["property"] == prop]
        self.seen_findings = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def size(self, quick, thorough):
        return thorough if self.thorough else quick

    def add(self, states=0, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, what, replay):
        """what: one line; replay: everything needed to see it again."""
        key = json.dumps(replay, sort_keys=True)
        for f in self.findings:
            if finding_matches(f, replay):
                if f["id"] not in self.seen_findings:
                    self.seen_findings.add(f["id"])
                return
        self.violations.append((what, replay))

    def finding_seen(self, fid):
        self.seen_findings.add(fid)

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict({"states": self.states, "transitions": self.transitions,
                                "traces_validated_against_impl": self.traces,
                                "samples": self.samples}, **self.extra),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for f in self.findings:
            print(f"KNOWN-FINDING: property={self.prop} {f['what']}")
        if not self.violations:
            print(f"OK property={self.prop} states={self.states} traces={self.traces} wall={ev['wall_s']}s")
            return 0
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for what, replay in self.violations[:20]:
            h = hashlib.sha1(json.dumps(replay, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(d, f"{self.prop}-{h}.json")
            json.dump({"property": self.prop, "what": what, "replay": replay}, open(path, "w"), indent=1)
            print(f"  {what}")
            print(f"VIOLATION property={self.prop} replay={path}")
        if len(self.violations) > 20:
            print(f"  ... {len(self.violations)} violations in all")
        return 1


def finding_matches(f, replay):
    """A known finding names exact features of the failing case; all must be present."""
    m = f.get("match", {})
    if not m:
        return False
    return all(replay.get(k) == v for k, v in m.items())
