"""Building the driver, running it, and running TLC. Standard library only."""
import fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(HARNESS, "target")
DRIVER = os.path.join(TARGET, "debug", "rsm-driver")
CORES = max(1, min(8, os.cpu_count() or 1))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTC_WRAPPER"] = ""
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTFLAGS", None)
    e.pop("JAVA_TOOL_OPTIONS", None)
    return e


# ------------------------------------------------------------------ building

def tree_hash():
    """Content of everything the driver is built from (not times, not names of places)."""
    h = hashlib.sha256()
    for base, skip in ((REPO, {"target", ".git", "bench", "node_modules"}), (HARNESS, {"target"})):
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in skip)
            for f in sorted(files):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()


def build():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(TARGET, ".verif-stamp")
        want = tree_hash()
        try:
            have = open(stamp).read()
        except OSError:
            have = ""
        if have == want and os.path.exists(DRIVER):
            return
        if os.path.exists(stamp):
            os.remove(stamp)
        # never trust file times: the crate under test is always compiled anew
        subprocess.run(["cargo", "clean", "--offline", "-p", "rusty-source-map", "-p", "rsm-driver"],
                       cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        r = subprocess.run(["cargo", "build", "--offline"], cwd=HARNESS, env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(DRIVER):
            raise ToolError("cargo build failed:\n" + r.stdout[-4000:])
        with open(stamp, "w") as f:
            f.write(want)


# ------------------------------------------------------------------- driving

def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


BAD_SCENARIO, HUNG, FINISHED = 117, 118, 119      # exit codes of the driver; see harness/src/main.rs


def drive(scenarios, trace, op_limit=20, deadline=150, abnormal=3):
    """Run the scenarios (list of dicts with sid and ops) and write the trace.
    Past the deadline the rest is not driven; what was recorded still counts.
    Returns whether the deadline passed."""
    scen = trace + ".scn"
    with open(scen, "w") as f:
        for s in scenarios:
            f.write(json.dumps(s) + "\n")
    open(trace, "w").close()
    done, end = 0, time.time() + deadline
    while done < len(scenarios):
        left = end - time.time()
        if left <= 0:
            return True
        try:
            p = subprocess.run([DRIVER, scen, trace, str(done), str(op_limit)], env=env(),
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                               timeout=left, preexec_fn=_limits)
        except subprocess.TimeoutExpired:
            whole_lines(trace)
            os.remove(scen)
            return True
        if p.returncode == FINISHED:
            break
        if p.returncode == BAD_SCENARIO:
            raise ToolError("driver: " + p.stderr[-500:])
        # what it was doing: the operation after the last event
        last = last_event(trace)
        if p.returncode == HUNG:
            n = position(scenarios, last["sid"])
        else:
            if last is None or last["i"] == len(scenarios[position(scenarios, last["sid"])]["ops"]):
                n, i = (0 if last is None else position(scenarios, last["sid"]) + 1), 0
            else:
                n, i = position(scenarios, last["sid"]), last["i"]
            if n == len(scenarios):            # on letting go of the last objects
                n, i = n - 1, len(scenarios[n - 1]["ops"]) - 1
            if n < done:
                raise ToolError("driver died without an operation under way: rc %s %s" % (p.returncode, p.stderr[-300:]))
            e = dict(scenarios[n]["ops"][i])
            if "srci" in e:
                e["src"] = "<unknown>"
                del e["srci"]
            e.update(sid=scenarios[n]["sid"], i=i + 1, r={"k": "crash", "rc": p.returncode})
            with open(trace, "a") as f:
                f.write(json.dumps(e) + "\n")
        done = n + 1
        abnormal -= 1
        if abnormal == 0:          # enough to report; the rest is not driven
            break
    os.remove(scen)
    return False


def whole_lines(trace):
    data = open(trace, "rb").read()
    if not data.endswith(b"\n"):
        open(trace, "wb").write(data[:data.rfind(b"\n") + 1])


def position(scenarios, sid):
    for k, s in enumerate(scenarios):
        if s["sid"] == sid:
            return k
    raise ToolError("unknown scenario in trace")


def last_event(trace):
    last = None
    with open(trace) as f:
        for line in f:
            if line.endswith("\n"):
                last = line
    return json.loads(last) if last else None


# ----------------------------------------------------------------------- TLC

def tlc(module, config, work, extra_env=None, workers=1, heap="3g", timeout=800, args=()):
    """Run TLC; returns its output. Anything but a clean finish is a ToolError."""
    meta = tempfile.mkdtemp(dir=work)
    e = env()
    e.update(extra_env or {})
    # a private copy of nothing: TLC reads SPEC and writes only to `work`
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m",
           "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
           "-workers", str(workers), "-config", config] + list(args) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC ran out of time on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def printed(out, tag):
    """Payloads of PrintT("TAG json")."""
    lines = [x for x in out.splitlines() if x.startswith('"%s ' % tag)]
    return [json.loads(json.loads(x)[len(tag) + 1:]) for x in sorted(set(lines))]


def validate(prop, trace, work):
    """TLC on one recorded trace: (rejections, judged, states)."""
    rc, out = tlc("Trace.tla", "Trace.cfg", work, {"PROP": prop, "TRACE": trace})
    rejects = [(int(a), int(b), c) for a, b, c in re.findall(r'<<"REJECT", (-?\d+), (\d+), "(\w+)">>', out)]
    judged = re.findall(r'<<"JUDGED", (\d+)>>', out)
    if rc != 0 and "The error occurred when TLC was evaluating" in out and not judged:
        # an answer so far out that the specification has no value for it
        depth = re.findall(r"depth of the complete state graph search is (\d+)", out)
        if depth:
            with open(trace) as f:
                for n, line in enumerate(f, 1):
                    if n == int(depth[-1]):
                        e = json.loads(line)
                        return rejects + [(e["sid"], e["i"], e["op"])], max(1, n), stats(out)[0]
    if rc != 0 or "No error has been found" not in out or len(judged) != 1:
        keep = os.path.join(VERIF, "replays", "tool-error-%s.log" % prop)
        os.makedirs(os.path.dirname(keep), exist_ok=True)
        with open(keep, "w") as f:
            f.write(out)
        raise ToolError("TLC could not read the trace (%s):\n%s" % (keep, out[-3000:]))
    return rejects, int(judged[0]), stats(out)[0]


def parallel(f, items):
    with ThreadPoolExecutor(CORES) as ex:
        return list(ex.map(f, items))
