"""Plumbing: scratch space, TLC, cargo, running generated programs."""
import hashlib
import json
import os
import queue
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "target")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
CORES = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    """Something that says nothing about the property: exit status 2."""


def workdir(*parts):
    d = os.path.join(WORK, *parts)
    os.makedirs(d, exist_ok=True)
    return d


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------- TLC

def tlc(module, cfg, env=None, args=(), timeout=800, workers=None, heap="6g"):
    """Runs TLC; returns its standard output. Raises on anything but success or a reported violation."""
    tmp = workdir("tlc", "%s-%d-%d" % (module, os.getpid(), threading.get_ident()))
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Djava.io.tmpdir=" + tmp,
           "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-metadir", os.path.join(tmp, "states"), "-noTE", "-deadlock",
           "-workers", str(workers or CORES), "-config", cfg]
    cmd += list(args) + [module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s timed out" % module)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    out = p.stdout.decode("utf-8", "replace")
    log("tlc %s %s: %.1f s, status %d" % (module, cfg, time.time() - t0, p.returncode))
    return p.returncode, out


def tlc_ok(module, cfg, **kw):
    rc, out = tlc(module, cfg, **kw)
    if rc != 0:
        raise ToolError("TLC failed on %s:\n%s" % (module, out[-6000:]))
    return out


def tlc_counts(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m.group(2)), int(m.group(1))
    m = re.search(r"The number of states generated: (\d+)", out)
    if m:
        return int(m.group(1)), int(m.group(1))
    return 0, 0


def parallel(jobs, width):
    """Runs thunks; returns their results in order, raises the first error."""
    res, errors = [None] * len(jobs), []
    it = iter(range(len(jobs)))
    lock = threading.Lock()

    def work():
        while True:
            with lock:
                i = next(it, None)
            if i is None or errors:
                return
            try:
                res[i] = jobs[i]()
            except Exception as ex:  # noqa
                errors.append(ex)

    ts = [threading.Thread(target=work) for _ in range(width)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errors:
        raise errors[0]
    return res


def tlc_judge(module, prop, entries):
    """Judges recorded observations in several runs of TLC at once: (output, states, transitions).
    (Every worker of TLC reads the observations on its own, so that many small runs of one worker are cheaper than a large one.)"""
    texts = [json.dumps(e) for e in entries]
    size = sum(len(t) for t in texts)
    n = max(min(CORES, 1 + len(texts) // 150), 1 + size // 8000000)
    runs = [texts[k::n] for k in range(n)]

    def job(k):
        path = os.path.join(workdir("obs"), "%s-%s-%d.json" % (module, prop, k))
        with open(path, "w") as f:
            f.write("[" + ",".join(runs[k]) + "]")
        try:
            return tlc_ok(module, module + ".cfg", env={"OBS": path, "PROP": prop}, workers=1, heap="3g")
        finally:
            os.remove(path)

    outs = parallel([lambda k=k: job(k) for k in range(n) if runs[k]], CORES)
    counts = [tlc_counts(o) for o in outs]
    return "\n".join(outs), sum(c[0] for c in counts), sum(c[1] for c in counts)


# ------------------------------------------------- JSON with comparable values

def tag(v):
    """JSON -> the tagged form of OpgJson.tla. Numbers keep their text."""
    if v is None:
        return {"z": True}
    if isinstance(v, bool):
        return {"b": v}
    if isinstance(v, Num):
        return {"n": str(v)}
    if isinstance(v, str):
        return {"s": v}
    if isinstance(v, list):
        return {"a": [tag(x) for x in v]}
    return {"o": {k: tag(x) for k, x in v.items()}}


class Num(str):
    pass


def loads(text):
    return json.loads(text, parse_int=Num, parse_float=Num)


def dump(path, v):
    with open(path, "w") as f:
        json.dump(v, f)


# ----------------------------------------------------------------- cargo

def cargo_env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=workdir("cargo"), CARGO_INCREMENTAL="0",
             CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable",
             HOME="/root", PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""), RUSTFLAGS="-Awarnings")
    return e


def cargo(pkg_dir, args, timeout=700):
    p = subprocess.run(["cargo"] + args, cwd=pkg_dir, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


CARGO_TOML = """[package]
name = "%s"
version = "0.0.0"
edition = "2021"

[dependencies]
opg = { path = "/repo/opg", default-features = %s, features = ["uuid", "chrono"] }
support = { path = "%s/harness/support" }
serde = { version = "1", features = ["derive", "rc"] }
serde_json = "1"
serde_repr = "0.1"
serde_yaml = "0.8"
uuid = { version = "1", features = ["serde"] }
chrono = { version = "0.4", features = ["serde"] }

[workspace]
"""


def span_files(span):
    """All files a diagnostic's span goes through, macro expansions included."""
    while span:
        yield span["file_name"], span["line_start"]
        exp = span.get("expansion")
        span = exp["span"] if exp else None


def diagnostics(stdout):
    """[(message, [(file, line)...])] of the compile errors in cargo's JSON output."""
    res = []
    for line in stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
            continue
        msg = m["message"]
        # where the error is; notes and suggestions (which may point at other cases) only if that is not in a case
        places = [p for sp in msg["spans"] if sp["is_primary"] for p in span_files(sp)]
        if not any("cases/" in f for f, _ in places):
            for x in [msg] + msg.get("children", []):
                for sp in x["spans"]:
                    places.extend(span_files(sp))
        res.append((msg["message"], places))
    return res


class Program:
    """A package of generated cases, each in a file of its own, spread over several binaries."""

    def __init__(self, name, prelude="", defaults=True):
        self.name = name
        self.dir = workdir("gen", name)
        self.prelude = prelude
        self.defaults = defaults   # opg with its default features
        self.cases = {}      # id -> source
        self.broken = {}     # id -> compile error

    def add(self, cid, source):
        self.cases[cid] = source

    def build_and_run(self, bins=None, deadline=780):
        """id -> observation (JSON), {"crash": why} or {"uncompilable": message}"""
        shutil.rmtree(self.dir, ignore_errors=True)
        ids = sorted(self.cases)
        bins = bins or max(1, min(CORES, len(ids) // 4))
        write(os.path.join(self.dir, "Cargo.toml"), CARGO_TOML % (self.name, str(self.defaults).lower(), VERIF))
        shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), os.path.join(self.dir, "Cargo.lock"))
        for cid in ids:
            write(os.path.join(self.dir, "src", "cases", cid + ".rs"), self.cases[cid])
        t_end = time.time() + deadline
        for attempt in range(8):
            parts = [[c for c in ids[b::bins] if c not in self.broken] for b in range(bins)]
            for b, part in enumerate(parts):
                text = self.prelude
                for cid in part:
                    text += '#[path = "../cases/%s.rs"] mod %s;\n' % (cid, cid)
                text += "fn main() { support::run_all(&[%s]); }\n" % ", ".join('("%s", %s::run)' % (c, c) for c in part)
                write(os.path.join(self.dir, "src", "bin", "b%d.rs" % b), text)
            t0 = time.time()
            try:
                rc, out, err = cargo(self.dir, ["build", "--offline", "--message-format=json", "--keep-going"],
                                     timeout=max(30, t_end - time.time()))
            except subprocess.TimeoutExpired:
                raise ToolError("building the generated programs timed out")
            log("cargo build %s (%d cases): %.1f s, status %d" % (self.name, len(ids) - len(self.broken), time.time() - t0, rc))
            if rc == 0:
                break
            found = False
            for msg, places in diagnostics(out):
                for f, _ in places:
                    m = re.search(r"cases/(\w+)\.rs$", f)
                    if m and m.group(1) not in self.broken:
                        self.broken[m.group(1)] = msg
                        found = True
            if not found:
                raise ToolError("the generated programs do not build:\n%s\n%s" % (
                    "\n".join("%s %s" % (m, p[:2]) for m, p in diagnostics(out)[:5]), err[-3000:]))
        else:
            raise ToolError("the generated programs still do not build")
        res = {c: {"uncompilable": m} for c, m in self.broken.items()}
        lock = threading.Lock()
        errors = []

        def work(b):
            try:
                r = run_cases(os.path.join(workdir("cargo"), "debug", "b%d" % b), parts[b])
                with lock:
                    res.update(r)
            except Exception as ex:  # noqa
                errors.append(ex)

        # binaries of all packages share one directory: run before building the next package
        ts = [threading.Thread(target=work, args=(b,)) for b in range(bins) if parts[b]]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errors:
            raise ToolError("running the generated programs failed: %r" % errors[0])
        return res


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_cases(exe, ids, idle=30, args=()):
    """Runs a binary over its cases; a crash or a hang is the observation of the case in progress."""
    res = {}
    start = 0
    while start < len(ids):
        p = subprocess.Popen([exe, str(start)] + list(args), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=limits)
        q = queue.Queue()

        def reader(p=p, q=q):
            for line in p.stdout:
                q.put(line)
            q.put(None)

        threading.Thread(target=reader, daemon=True).start()
        cur, ended = None, False
        why = None
        while True:
            try:
                line = q.get(timeout=idle)
            except queue.Empty:
                p.kill()
                why = "does not terminate"
                break
            if line is None:
                p.wait()
                if not ended:
                    why = "killed by signal %d" % -p.returncode if p.returncode < 0 else "exit status %d" % p.returncode
                break
            line = line.decode("utf-8", "replace").rstrip("\n")
            if line.startswith("START "):
                cur = line[6:]
            elif line.startswith("DONE "):
                res[cur] = loads(line[5:])
                cur = None
            elif line == "END":
                ended = True
        if ended:
            break
        if cur is None:
            raise ToolError("%s ended between cases: %s" % (exe, why))
        res[cur] = {"crash": why}
        start = ids.index(cur) + 1
    return res


def build_engine():
    """The interpreter of scripts (harness/support/src/dynamic.rs), built against /repo"""
    d = workdir("gen", "engine")
    write(os.path.join(d, "Cargo.toml"), CARGO_TOML % ("engine", "true", VERIF))
    shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    write(os.path.join(d, "src", "main.rs"), "fn main() { support::run_scripts() }\n")
    rc, out, err = cargo(d, ["build", "--offline", "--message-format=json"])
    if rc != 0:
        raise ToolError("the harness does not build:\n%s\n%s" % (
            "\n".join("%s %s" % (m, p[:2]) for m, p in diagnostics(out)[:5]), err[-3000:]))
    return os.path.join(workdir("cargo"), "debug", "engine")


def run_engine(scripts):
    """[(id, script)] -> id -> observation"""
    exe = build_engine()
    res, errors, lock = {}, [], threading.Lock()

    def work(b):
        part = scripts[b::CORES]
        path = os.path.join(workdir("scripts"), "%d.jsonl" % b)
        with open(path, "w") as f:
            for s in part:
                f.write(json.dumps(s) + "\n")
        try:
            r = run_cases(exe, [i for i, _ in part], args=[path])
            with lock:
                res.update(r)
        except Exception as ex:  # noqa
            errors.append(ex)
        os.remove(path)

    ts = [threading.Thread(target=work, args=(b,)) for b in range(CORES)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errors:
        raise ToolError("running the scripts failed: %r" % errors[0])
    return res


# -------------------------------------------------------------- reporting

def sha(text):
    return hashlib.sha1(text.encode()).hexdigest()


def known_findings():
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                res.append(json.loads(line))
    return res


def compile_only(name, sources, prelude="", deadline=780):
    """Which of the sources (id -> text, a module each) compile: id -> compile error of those that do not."""
    d = workdir("gen", name)
    shutil.rmtree(d, ignore_errors=True)
    write(os.path.join(d, "Cargo.toml"), CARGO_TOML % (name, "true", VERIF))
    shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    ids = sorted(sources)
    for cid in ids:
        write(os.path.join(d, "src", "cases", cid + ".rs"), sources[cid])
    broken, bins, t_end = {}, max(1, min(CORES, len(ids) // 4)), time.time() + deadline
    for attempt in range(40):
        for b in range(bins):
            text = prelude + "".join('#[path = "../cases/%s.rs"] mod %s;\n' % (c, c) for c in ids[b::bins] if c not in broken)
            write(os.path.join(d, "src", "bin", "b%d.rs" % b), text + "fn main() {}\n")
        t0 = time.time()
        try:
            rc, out, err = cargo(d, ["check", "--offline", "--message-format=json", "--keep-going"], timeout=max(30, t_end - time.time()))
        except subprocess.TimeoutExpired:
            raise ToolError("compiling the generated declarations timed out")
        log("cargo check %s (%d cases): %.1f s, status %d" % (name, len(ids) - len(broken), time.time() - t0, rc))
        if rc == 0:
            return broken
        found = False
        for msg, places in diagnostics(out):
            for f, _ in places:
                m = re.search(r"cases/(\w+)\.rs$", f)
                if m and m.group(1) not in broken:
                    broken[m.group(1)] = msg
                    found = True
        if not found:
            raise ToolError("the generated declarations do not compile:\n%s\n%s" % (
                "\n".join("%s %s" % (m, p[:2]) for m, p in diagnostics(out)[:5]), err[-3000:]))
    raise ToolError("the generated declarations still do not compile")
