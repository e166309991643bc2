"""Shared machinery of the checks: building the harness from /repo, running TLC, running jobs."""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, ".target")
WORK = os.path.join(VERIF, ".work")
OUT = os.path.join(VERIF, "out")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
CORES = 8


class CheckError(Exception):
    """An error of the check itself (exit 2), not a verdict."""


# ------------------------------------------------------------------ build

SOURCES = ["lib", "proto", "plugins", "server", "client"]


def source_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, d) for d in SOURCES] + [os.path.join(VERIF, "harness")]
    files = [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock")]
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = [x for x in ds if x not in ("target", ".git", "fuzz", "node_modules")]
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def cargo_env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = e["HOME"] + "/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    e.pop("CARGO_TARGET_DIR", None)
    return e


def cargo(args, cwd, target):
    e = cargo_env()
    e["CARGO_TARGET_DIR"] = target
    p = subprocess.run(["cargo", "build", "--locked", "--offline"] + args, cwd=cwd, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("build failed:\n" + p.stdout[-6000:])


def drop_fingerprints():
    """Forget cargo's freshness records of the packages built from /repo and of the harness."""
    for t in (TARGET, os.path.join(VERIF, ".target-repo")):
        fp = os.path.join(t, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith(("indradb", "vh-", "vh_plugin")):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)


def build(server=False):
    """Returns the directory with the executables built from the current sources:
    vh (debug assertions as in the repository's own build), vh-nda (without them in indradb-lib),
    plugins/libvh_plugin*.so, and with server=True indradb-server, indradb-client and the example plugins."""
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "build.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = source_hash()
        d = os.path.join(WORK, "bin-" + h[:24])
        stampf = os.path.join(TARGET, "sources.sha256")
        stamp = open(stampf).read() if os.path.exists(stampf) else ""
        if stamp != h:
            drop_fingerprints()
            with open(stampf, "w") as f:
                f.write(h)
        if not os.path.exists(os.path.join(d, "ok")):
            for n in os.listdir(WORK):
                if n.startswith("bin-"):
                    shutil.rmtree(os.path.join(WORK, n), ignore_errors=True)
            os.makedirs(os.path.join(d, "plugins"))
            hd = os.path.join(VERIF, "harness")
            cargo(["--workspace", "--config", "profile.dev.package.indradb-lib.debug-assertions=false"], hd, TARGET)
            shutil.copy2(os.path.join(TARGET, "debug", "vh"), os.path.join(d, "vh-nda"))
            cargo(["--workspace"], hd, TARGET)
            shutil.copy2(os.path.join(TARGET, "debug", "vh"), os.path.join(d, "vh"))
            for n in ("libvh_plugin.so", "libvh_plugin2.so"):
                shutil.copy2(os.path.join(TARGET, "debug", n), os.path.join(d, "plugins", n))
            open(os.path.join(d, "ok"), "w").close()
        if server and not os.path.exists(os.path.join(d, "ok-server")):
            t = os.path.join(VERIF, ".target-repo")
            cargo(["-p", "indradb", "-p", "indradb-client", "-p", "indradb-plugin-hello-world", "-p", "indradb-plugin-naive-vertex-count",
                   "--features", "indradb-lib/rocksdb-datastore"], REPO, t)
            # plugins fit only the server they were built together with
            for b in os.listdir(os.path.join(t, "debug")):
                if b.startswith("libindradb_plugin_") and b.endswith(".so"):
                    shutil.copy2(os.path.join(t, "debug", b), os.path.join(d, b))
            for b in ("indradb-server", "indradb-client"):
                shutil.copy2(os.path.join(t, "debug", b), os.path.join(d, b))
            open(os.path.join(d, "ok-server"), "w").close()
        return d


# ------------------------------------------------------------------ TLC

def community_jar():
    for n in sorted(os.listdir(TLA)):
        if "ommunity" in n and n.endswith(".jar"):
            return os.path.join(TLA, n)
    raise CheckError("no CommunityModules jar")


def tlc(module, cfg_text, work, env=None, timeout=600, xmx="2g", workers=1, extra=(), props=()):
    """Runs TLC; returns its output text. cfg_text is written to a file in work."""
    os.makedirs(work, exist_ok=True)
    cfg = os.path.join(work, module + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + xmx] + list(props) + [
           "-cp", os.path.join(TLA, "tla2tools.jar") + ":" + community_jar(), "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg] + list(extra) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.stdout


def tlc_counts(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def clean_pass(out):
    return "No error has been found" in out


def model_check(module, cfg, work, **kw):
    """Model checking of the specification itself: must pass (it does not depend on /repo)."""
    out = tlc(module, cfg, work, **kw)
    if not clean_pass(out):
        raise CheckError(f"the specification {module} fails its own check:\n" + "\n".join(
            l for l in out.splitlines() if not l.startswith('"'))[-4000:])
    return out


# ------------------------------------------------------------------ results

class Result:
    def __init__(self, name):
        self.name = name
        self.violations = []      # (summary, replay path)
        self.known = []           # summaries of known findings
        self.counts = {}          # numbers to be added up
        self.samples = []
        self.notes = {}

    def add(self, **kw):
        for k, v in kw.items():
            self.counts[k] = self.counts.get(k, 0) + v
        return self


def scratch(tag):
    base = "/dev/shm" if os.path.isdir("/dev/shm") else "/tmp"
    return tempfile.mkdtemp(prefix="vc-" + tag + "-", dir=base)


def vh(bindir, binary, args, timeout=600, env=None, cwd=None):
    """Runs the harness. Returns (rc, stdout, stderr)."""
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run([os.path.join(bindir, binary)] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout, errors="replace", env=e, cwd=cwd)
    except subprocess.TimeoutExpired as x:
        return ("timeout", (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), "")
    return (p.returncode, p.stdout, p.stderr)


def last_json(text):
    for l in reversed(text.strip().splitlines()):
        if l.startswith("{"):
            try:
                return json.loads(l)
            except ValueError:
                pass
    return {}


def keep_replay(prop, tag, files, info):
    """Copies what is needed to reproduce a violation out of the scratch directory."""
    d = os.path.join(OUT, "replay", prop)
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, re.sub(r"[^A-Za-z0-9_.-]", "_", tag))
    main = base + ".json"
    with open(main, "w") as f:
        json.dump(info, f, indent=1)
        f.write("\n")
    for suffix, src in files.items():
        if src and os.path.exists(src):
            shutil.copy2(src, base + suffix)
    return main


def harness_died(res, prop, tag, rc, so, se, cmd):
    what = ("an operation did not return: " + so.strip()[-1500:]) if rc == 3 or "HANG" in so else \
        f"the process running the code under test ended with {rc}"
    res.violations.append((what, keep_replay(prop, tag, {}, {"command": cmd, "rc": rc, "stdout": so[-3000:], "stderr": se[-3000:], "what": what})))
    return res


CONFORM_CFG = open(os.path.join(SPEC, "Conform.cfg")).read() if os.path.exists(os.path.join(SPEC, "Conform.cfg")) else ""


def conform(trace, work, module="Conform", cfg=None, xmx="3g", timeout=600):
    """Validates a recorded trace. Returns (ok, info): info has the mismatch, or the counts."""
    out = tlc(module, cfg or CONFORM_CFG, work, env={"TRACE": trace}, xmx=xmx, timeout=timeout)
    gen, dis = tlc_counts(out)
    if clean_pass(out):
        return True, {"states": dis, "generated": gen}
    mm = None
    for l in out.splitlines():
        if l.startswith('"{\\"mismatch'):
            try:
                x = json.loads(json.loads(l))
            except ValueError:
                continue
            # with several explanations still possible: the one that got furthest
            if mm is None or x["mismatch"] > mm["mismatch"]:
                mm = x
    inv = re.search(r"Invariant (\w+) is violated", out)
    if mm is None and not inv:
        if "Postcondition" not in out:
            raise CheckError("TLC failed on a recorded trace:\n" + out[-3000:])
    return False, {"mismatch": mm["mismatch"] if mm else None, "expected": mm["expected"] if mm else None,
                   "invariant": inv.group(1) if inv else None, "states": dis, "generated": gen}


def trace_job(prop, bindir, binary, args, tag, module="Conform", cfg=None, timeout=600, env=None, sample=True):
    """Runs one harness command that records a trace, and validates it."""
    res = Result(tag)
    d = scratch(prop)
    try:
        trace = os.path.join(d, "t.ndjson")
        cmd = args + ["out=" + trace]
        rc, so, se = vh(bindir, binary, cmd, timeout=timeout, env=env)
        shown = [binary] + args
        if rc != 0:
            return harness_died(res, prop, tag, rc, so, se, shown)
        info = last_json(so)
        ok, x = conform(trace, d, module, cfg)
        lines = open(trace).read().splitlines()
        res.add(traces=1, events=info.get("events", max(0, len(lines) - 1)), histories=info.get("histories", 1),
                tlc_states=x["states"], tour_transitions=info.get("transitions", 0), tour_of=info.get("of", 0))
        if sample and len(lines) > 3:
            pick = [l for l in lines[1:] if '"reset"' not in l]
            if pick:
                n = len(pick)
                res.samples = [json.loads(pick[i])for i in sorted({n // 5, n // 2, n - 1}) if len(pick[i]) < 1500]
        if not ok:
            n = x["mismatch"] or x["states"] + 1
            hist, ev = cut_history(trace + ".raw", n)
            rp = os.path.join(d, "replay.ndjson")
            with open(rp, "w") as f:
                f.write("\n".join(hist) + "\n")
            why = f"invariant {x['invariant']} violated" if x["invariant"] else "the result is not the one the specification allows"
            what = f"{why}: event {n - 1} of {' '.join(shown)}: {ev[:600]}; expected {json.dumps(x['expected'])[:600]}"
            path = keep_replay(prop, tag, {".ndjson": rp}, {
                "command": shown, "env": env or {}, "event": ev, "expected": x["expected"], "invariant": x["invariant"],
                "reproduce": f"{binary} replay in=<this>.ndjson store={dict(a.split('=', 1) for a in args if '=' in a).get('store', 'mem')} out=T; then TLC on spec/{module}.tla with TRACE=T"})
            res.violations.append((what, path))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


LINEAR_CFG = "SPECIFICATION Spec\nINVARIANT NoDangling\nCHECK_DEADLOCK FALSE\n"


def linear_job(prop, bindir, binary, args, tag, timeout=900, xmx="3g"):
    """Records concurrent histories and searches, with TLC, a sequential order that explains each."""
    res = Result(tag)
    d = scratch(prop)
    try:
        trace = os.path.join(d, "t.ndjson")
        rc, so, se = vh(bindir, binary, args + ["out=" + trace], timeout=timeout)
        shown = [binary] + args
        if rc != 0:
            return harness_died(res, prop, tag, rc, so, se, shown)
        info = last_json(so)
        lines = open(trace).read().splitlines()
        out = tlc("Linear", LINEAR_CFG, d, env={"TRACE": trace}, xmx=xmx, timeout=timeout)
        gen, dis = tlc_counts(out)
        done = max([int(x) for x in re.findall(r'<<"DONE", (\d+)>>', out)] or [1])
        inv = re.search(r"Invariant (\w+) is violated", out)
        if not clean_pass(out) and not inv:
            raise CheckError("TLC failed on recorded concurrent histories:\n" + out[-3000:])
        res.add(traces=max(0, len(lines) - 1), concurrent_runs=info.get("runs", 0), programs=info.get("programs", 0), tlc_states=dis,
                events=sum(l.count('"res"') for l in lines))
        if len(lines) > 2 and len(lines[len(lines) // 2]) < 6000:
            h = json.loads(lines[len(lines) // 2])
            res.samples = [{"concurrent": h["calls"]}]
        if done < len(lines) or inv:
            raw = open(trace + ".raw").read().splitlines()
            ev = raw[min(done, len(raw)) - 1]
            what = (f"invariant {inv.group(1)} violated" if inv else "no sequential order of the calls explains the observed results") + \
                f": history {done} of {' '.join(shown)}: {ev[:1500]}"
            rp = os.path.join(d, "hist.ndjson")
            with open(rp, "w") as f:
                f.write(lines[0] + "\n" + lines[min(done, len(lines) - 1)] + "\n")
            res.violations.append((what, keep_replay(prop, tag, {".ndjson": rp}, {
                "command": shown, "history": ev, "reproduce": "TLC on spec/Linear.tla with TRACE=<this>.ndjson: it stops before DONE 2; the command itself runs the program again"})))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cut_history(raw, n):
    """The raw events from the last reset to event n-1 (trace line n has the header before it)."""
    try:
        lines = open(raw).read().splitlines()
    except OSError:
        return [], ""
    k = min(n - 1, len(lines))
    hist = lines[:k]
    start = 0
    for i, l in enumerate(hist):
        if '"op":"reset"' in l:
            start = i
    return hist[start:], (hist[-1] if hist else "")


def run_jobs(jobs, width=CORES, deadline=None):
    """jobs: list of thunks. Returns the results; an exception of a job is raised at the end."""
    results, errors = [], []
    with concurrent.futures.ThreadPoolExecutor(width) as ex:
        fs = []
        for j in jobs:
            fs.append(ex.submit(j))
        for f in concurrent.futures.as_completed(fs):
            try:
                r = f.result()
                if r is not None:
                    results += r if isinstance(r, list) else [r]
            except CheckError as e:
                errors.append(e)
    return results, errors
