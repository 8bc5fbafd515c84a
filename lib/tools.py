"""Building the driver, running it, running TLC."""
import json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
WORK = os.path.join(VERIF, ".work")
TMP = os.path.join(WORK, "tmp-%d" % os.getpid())
EVID = os.path.join(VERIF, "evidence")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


# the hooks (iter, lent, parts, id) and the parts of the driver that rest on private interfaces
HOOKS = ["iter", "lent", "parts", "id", "table", "cache", "hkeys"]


def build(profile, without=()):
    """Builds the driver against /repo's working tree, possibly without some of the hooks; returns the path of the
    executable."""
    flags = "--cfg rustyalgebra_verif " + "".join("--cfg rustyalgebra_verif_no_%s " % h for h in without)
    env = dict(os.environ, RUSTFLAGS=flags + "-Awarnings", CARGO_TERM_COLOR="never")
    target = os.path.join(BUILD, profile + "".join("-no-" + h for h in without))
    args = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "driver", "Cargo.toml"),
            "--target-dir", target]
    if profile != "dev":
        args += ["--profile", profile]
    r = subprocess.run(args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        raise ToolError("the driver does not build:\n" + r.stdout[-3000:])
    return os.path.join(target, "debug" if profile == "dev" else profile, "driver")


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def drive(driver, script, log, processes=1, mark=False, max_crashes=3):
    """Runs a script; a call that kills the process or never returns is logged as such.

    processes > 1 runs the whole script that often, each time in a process of its own.  With mark
    every start of a process is logged."""
    if os.path.exists(log):
        os.remove(log)
    crashes = 0
    with open(script) as f:
        total = sum(1 for l in f if l.startswith("begin"))
    for _ in range(processes):
        first = 0
        while first < total:
            if mark:
                with open(log, "a") as f:
                    f.write('{"op":"process","ep":%d,"out":"ok","res":[],"obs":[],"buf":[]}\n' % first)
            r = subprocess.run([driver, script, log, str(first)], preexec_fn=limits, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, text=True, errors="replace", timeout=700)
            if r.returncode == 0:
                break
            if r.returncode == 64 or "SCRIPT-ERROR" in r.stderr:
                raise ToolError("driver: " + r.stderr[-500:])
            with open(log, "rb") as f:
                data = f.read()
            crashes += 1
            if not data or data.endswith(b"\n"):
                # died between two calls
                raise ToolError("driver ended with %d between calls: %s" % (r.returncode, r.stderr[-500:]))
            cut = data.rfind(b"\n") + 1
            tail = data[cut:].decode()
            if '"out"' in tail:
                raise ToolError("incomplete log line: " + tail[-300:])
            ep = int(re.search(r'"ep":(\d+)', tail).group(1))
            why = "hang" if r.returncode == 97 else "crash"
            with open(log, "a") as f:
                f.write(',"out":"%s","res":[],"obs":[],"buf":[]}\n' % why)
            if crashes >= max_crashes or why == "hang":
                return crashes
            first = ep + 1
    return crashes


def java(args, env=None, timeout=800, heap="3g"):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    os.makedirs(TMP, exist_ok=True)      # TLC unpacks its standard modules there
    cmd = ["java", "-Djava.io.tmpdir=" + TMP, "-Xss512m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC"] + args
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC did not finish in %d s: %s" % (timeout, " ".join(args)))
    return r.returncode, r.stdout


_meta = [0]


def metadir():
    _meta[0] += 1
    return os.path.join(WORK, "meta", "%d-%d" % (os.getpid(), _meta[0]))


STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left", re.M)


def model_check(module, cfg, workers=4, timeout=800, meta=None, heap="4g"):
    """Explores a specification completely; returns (generated, distinct, output)."""
    rc, out = java(["-metadir", meta or metadir(), "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg,
                    module + ".tla"], timeout=timeout, heap=heap)
    return rc, out


def prove(module, timeout=1500):
    """The number of obligations the TLA+ proof system proves, all of them."""
    d = os.path.join(TMP, "proof-" + module)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    r = subprocess.run(["tlapm", "--threads", "4", "--stretch", "4", module + ".tla"], cwd=d, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    shutil.rmtree(d, ignore_errors=True)
    m = re.search(r"All (\d+) obligations? proved", r.stdout)
    if r.returncode != 0 or not m:
        raise ToolError("%s is not proved:\n%s" % (module, r.stdout[-2000:]))
    return int(m.group(1))


def explored(module, rc, out):
    m = STATES.findall(out)
    if rc != 0 or "No error has been found" not in out or not m:
        raise ToolError("model checking %s failed (exit %d):\n%s" % (module, rc, out[-3000:]))
    gen, dist, left = map(int, m[-1])
    if left:
        raise ToolError("%s: not all states explored" % module)
    return gen, dist


def validate(module, log, header, meta, timeout=700):
    """Is the log a behaviour of the specification?  ("ok", states) or ("rejected", line number) or
    ("error", line number, text): the event cannot even be evaluated."""
    nd = log + ".nd"
    with open(nd, "w") as f:
        f.write(json.dumps(header) + "\n")
        with open(log) as g:
            shutil.copyfileobj(g, f)
    with open(nd) as f:
        lines = sum(1 for _ in f)
    rc, out = java(["-metadir", meta, "-noGenerateSpecTE", "-workers", "1", "-config", module + ".cfg",
                    module + ".tla"], env={"TRACE": nd}, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'<<"(ACCEPTED|REJECTED)", (\d+)>>', out)
    if m and m.group(1) == "ACCEPTED" and rc == 0:
        if int(m.group(2)) != lines:
            raise ToolError("accepted %s of %d lines" % (m.group(2), lines))
        return "ok", lines - 1
    if m and m.group(1) == "REJECTED":
        return "rejected", int(m.group(2))
    ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
    if ls and ("Error:" in out):
        return "error", int(ls[-1]), out[-1500:]
    raise ToolError("TLC could not judge %s:\n%s" % (log, out[-2500:]))
