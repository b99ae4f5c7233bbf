"""Building, running and validating: the machinery shared by the checks."""
import contextlib, fcntl, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
CLASSES = os.path.join(BUILD, "classes")
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
STALL = 90          # seconds without progress of the code under test
CPUS = max(1, min(8, os.cpu_count() or 1))


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------------------------------------------- building
def source_hash():
    h = hashlib.sha256()
    for top in ("sia", "sia_derive"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    for p in sorted(glob.glob(VERIF + "/harness/src/**/*.rs", recursive=True)) + [VERIF + "/harness/Cargo.toml"]:
        with open(p, "rb") as fh:
            h.update(p.encode() + b"\0" + hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


@contextlib.contextmanager
def locked(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def cargo_env():
    env = dict(os.environ)
    env.update(CARGO_TARGET_DIR=TARGET, RUSTFLAGS="-Awarnings", CARGO_TERM_COLOR="never")
    env.pop("RUSTC_WRAPPER", None)
    return env


def build_harness(profile="debug", bins=("interp",)):
    """builds the harness against /repo's working tree; the build never trusts modification times"""
    with locked("cargo"):
        want = source_hash()
        for b in bins:
            stamp = os.path.join(BUILD, "stamp-%s-%s" % (profile, b))
            exe = os.path.join(TARGET, profile, b)
            try:
                if open(stamp).read() == want and os.path.exists(exe):
                    continue
            except OSError:
                pass
            for p in glob.glob(os.path.join(TARGET, profile, ".fingerprint", "sia_*")):
                shutil.rmtree(p)
            with contextlib.suppress(FileNotFoundError):
                os.remove(stamp)
            cmd = ["cargo", "build", "--offline", "--locked", "--bin", b] + (["--release"] if profile == "release" else [])
            r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise ToolError("building the harness (%s, %s) failed:\n%s" % (profile, b, r.stdout[-6000:]))
            with open(stamp, "w") as f:
                f.write(want)


def build_java():
    src = os.path.join(SPEC, "java", "SiaOverrides.java")
    with locked("java"):
        want = hashlib.sha256(open(src, "rb").read()).hexdigest()
        stamp = os.path.join(CLASSES, "stamp")
        try:
            if open(stamp).read() == want:
                return
        except OSError:
            pass
        os.makedirs(CLASSES, exist_ok=True)
        r = subprocess.run(["javac", "-nowarn", "-cp", TLAJAR, "-d", CLASSES, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("javac failed:\n" + r.stdout)
        with open(stamp, "w") as f:
            f.write(want)


# ---------------------------------------------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, heap="2g", workers="1", args=(), timeout=800, meta=None, classes=True, gc="-XX:+UseSerialGC"):
    """runs TLC; returns its output"""
    build_java()
    tmp = meta or tempfile.mkdtemp(prefix="tlc-", dir=work_dir())
    cp = (CLASSES + ":" if classes else "") + TLAJAR
    over = "tlc2.overrides.TLCOverrides:SiaOverrides" if classes else "tlc2.overrides.TLCOverrides"
    cmd = ["java", "-Xmx" + heap, "-Xss256m", "-Djava.io.tmpdir=" + tmp, gc, "-XX:TieredStopAtLevel=4", "-Dtlc2.overrides.TLCOverrides=" + over, "-DTLA-Library=" + SPEC, "-cp", cp,
           "tlc2.TLC", "-metadir", tmp, "-workers", workers, "-noGenerateSpecTE", *args, "-config", cfg, module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC ran out of time on " + module)
    finally:
        if meta is None:
            shutil.rmtree(tmp, ignore_errors=True)
    return TlcRun(r.returncode, r.stdout, time.time() - t)


class TlcRun:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        m = m or re.findall(r"(\d+) states generated.*?, (\d+) distinct states found.*?, (\d+) states left", out.replace(",", ""))
        self.generated, self.distinct, self.left = (int(x) for x in m[-1]) if m else (0, 0, 0)
        self.ok = "Model checking completed. No error has been found." in out and rc == 0


_work = None


def work_dir():
    global _work
    if _work is None:
        os.makedirs(os.path.join(BUILD, "work"), exist_ok=True)
        _work = tempfile.mkdtemp(prefix="run-", dir=os.path.join(BUILD, "work"))
        import atexit
        atexit.register(shutil.rmtree, _work, True)
    return _work


_model = None


def model():
    """the type table and constants of the specification, as JSON"""
    global _model
    if _model is None:
        build_java()
        h = hashlib.sha256()
        for p in sorted(glob.glob(SPEC + "/*.tla")):
            h.update(open(p, "rb").read())
        p = os.path.join(BUILD, "model-%s.json" % h.hexdigest()[:16])
        with locked("model"):
            if not os.path.exists(p):
                for q in glob.glob(os.path.join(BUILD, "model-*.json")):
                    os.remove(q)
                tmp = p + ".tmp"
                r = tlc("Dump", "Dump.cfg", env=dict(OUT=tmp))
                if not r.ok or not os.path.exists(tmp):
                    raise ToolError("Dump failed:\n" + r.out[-3000:])
                os.rename(tmp, p)
            _model = json.load(open(p))[0]
    return _model


# ---------------------------------------------------------------------------------------------------- running the code
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def execute(segments, profile="debug", binary="interp", name="0", threads=None, parallel=0):
    """runs the segments, in order and in one process, on the code; returns the list of segments of events.
    A command that ends the process, or never returns, yields an event with member "abort"."""
    d = work_dir()
    cmds, events = os.path.join(d, "c-%s.ndjson" % name), os.path.join(d, "e-%s.ndjson" % name)
    flat, first = [], []          # first[i]: index of the segment's first command
    reset = dict(op="s_reset" if binary == "wipe" else "reset")
    for s in segments:
        first.append(len(flat))
        flat.append(reset)
        flat += s
    with open(cmds, "w") as f:
        for c in flat:
            f.write(json.dumps(c, separators=(",", ":")) + "\n")
    starts = set(first)
    out = {}
    skip = 0
    env = dict(os.environ, RUST_BACKTRACE="0")
    if threads:
        env["RAYON_NUM_THREADS"] = str(threads)
    aborts = 0
    while skip < len(flat):
        with contextlib.suppress(FileNotFoundError):
            os.remove(events)
        err = open(os.path.join(d, "err-%s" % name), "w+")
        p = subprocess.Popen([os.path.join(TARGET, profile, binary), cmds, events, str(skip)] + ([str(parallel)] if parallel else []), stdin=subprocess.DEVNULL, stdout=err, stderr=err,
                             env=env, cwd=d, preexec_fn=limits, start_new_session=True)
        size, at, why = -1, time.time(), None
        while True:
            try:
                p.wait(0.2 if size >= 0 else 0.02)
                break
            except subprocess.TimeoutExpired:
                n = os.path.getsize(events) if os.path.exists(events) else 0
                if n != size:
                    size, at = n, time.time()
                elif time.time() - at > STALL:
                    p.kill()
                    p.wait()
                    why = "hang"
                    break
        got = []
        if os.path.exists(events):
            with open(events) as f:
                got = [x.rstrip("\n") for x in f if x.endswith("\n")]
        for i, e in enumerate(got):
            out[skip + i] = e
        done = skip + len(got)
        err.seek(0)
        text = err.read()
        err.close()
        if p.returncode == 3 or "harness:" in text:
            raise ToolError("harness: " + text[-2000:])
        if p.returncode == 0 and why is None:
            if done != len(flat):
                raise ToolError("harness: %d of %d events" % (done, len(flat)))
            break
        if done >= len(flat):
            raise ToolError("harness: ended with %s after its last command" % p.returncode)
        e = dict(flat[done])
        e.update(abort=True, why=(why or "status %s" % p.returncode) + (" with sessions in parallel" if parallel else ""), res=dict(r="abort"))
        out[done] = json.dumps(e)
        aborts += 1
        # go on with the next segment
        skip = min([i for i in first if i > done], default=len(flat))
        if aborts >= 5 or parallel or why == "hang" and aborts >= 2:
            break
    segs = []
    bounds = first + [len(flat)]
    for k in range(len(segments)):
        seg = [out[i] for i in range(bounds[k], bounds[k + 1]) if i in out]
        if seg:
            segs.append(seg)
    return segs


# ---------------------------------------------------------------------------------------------------- validating
class Rejection:
    def __init__(self, segment, index, event, why=""):
        self.segment, self.index, self.event, self.why = segment, index, event, why


def _validate_shard(k, segs, timeout):
    """validates one shard, going on after each rejection with the next segment"""
    rejections, states, trans = [], 0, 0
    d = work_dir()
    while segs:
        p = os.path.join(d, "t-%s.ndjson" % k)
        starts, n = [], 0
        with open(p, "w") as f:
            for s in segs:
                starts.append(n)
                for e in s:
                    f.write(e + "\n")
                n += len(s)
        r = tlc("Trace", "Trace.cfg", env=dict(TRACE=p), heap="3g", timeout=timeout)
        states += r.distinct
        trans += r.generated
        if r.ok and "REJECTED" not in r.out and r.distinct == n + 1:
            break
        m = re.search(r'<<"REJECTED", (\d+)>>', r.out)
        why = ""
        if m:
            at = int(m.group(1)) - 1
        else:
            bad = ("OutOfMemory" in r.out or "StackOverflow" in r.out or "Parsing or semantic analysis failed" in r.out)
            st = re.findall(r"^State (\d+):|^(\d+): <", r.out, re.M)
            if bad or not st or r.rc in (137, 143, -9):
                raise ToolError("TLC failed on a trace:\n" + r.out[:1500] + "\n...\n" + r.out[-3000:])
            at = max(int(a or b) for a, b in st) - 1
            why = "evaluation: " + " ".join(r.out[r.out.find("Error:"):][:600].split())
        seg = max(i for i in range(len(starts)) if starts[i] <= at)
        rejections.append(Rejection(segs[seg], at - starts[seg], segs[seg][at - starts[seg]], why))
        segs = segs[seg + 1:]
        if len(rejections) >= 3:
            break
    return rejections, states, trans


def validate(segs, shards=CPUS, timeout=800):
    """is every segment of events a behaviour of the specification?  (rejections, states, transitions)"""
    weights = [sum(len(e) + 400 for e in s) for s in segs]
    shards = max(1, min(shards, len(segs), 1 + sum(weights) // 60000))
    bins = [[0, []] for _ in range(shards)]
    for w, i in sorted(((w, i) for i, w in enumerate(weights)), reverse=True):
        b = min(bins, key=lambda b: b[0])
        b[0] += w
        b[1].append(i)
    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(lambda kb: _validate_shard(kb[0], [segs[i] for i in sorted(kb[1][1])], timeout), enumerate(bins)))
    return [x for r in rs for x in r[0]], sum(r[1] for r in rs), sum(r[2] for r in rs)
