"""Runs the plan of a property: model checking, behaviours generated by TLC and random calls replayed
on the library, and the recorded runs checked against the specification."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, sys, threading, time

from . import tools
from .tools import ToolError, SPEC, WORK, EVID

NAMES = {}
for ops, names in [
    ("new clear negi", "r"), ("fromkey erase", "r k"), ("fromks ins1 getmut kam ksm", "r k s"), ("kad ksd", "r k q"),
    ("fromit ins", "r ps"), ("fromvec", "r v"), ("fromdim resize", "r x"), ("buf", "y v"), ("borrow borrowmut", "r y"),
    ("clone own rewrap swap neg addi subi exp log fmexp copy", "r a"), ("get", "a k"), ("getslice", "a x x2"),
    ("getmutslice", "r x x2 s"), ("getidx", "a x"), ("size degree fmt fmtf iter read deg idx dimkey", "a"), ("eq cmp", "a b"),
    ("same", "a b d"), ("add sub cat", "r a b"), ("smr sml", "r a s"), ("sdr sdl", "r a q"), ("smli smri", "r s"),
    ("sdri sdli", "r q"), ("asrm aslm ssrm sslm", "r a s"), ("asrd asld ssrd ssld", "r a q"),
    ("mul comm addmul submul", "r a b d"), ("muli", "r a d"), ("mslp msrp", "r a s d"), ("mrld mrrd", "r a q d"),
    ("maai", "r a b f d"), ("mii", "r a f d"), ("letter push", "r l"), ("letters", "r w"), ("iterfrom", "j a"),
    ("next", "j r"), ("skip", "j x"), ("nth", "j x r"), ("at", "r i"), ("start tnew grow", "d"), ("idxdeg dimidx find", "i"),
]:
    for op in ops.split():
        NAMES[op] = names.split()


def token(e, f):
    v = e[f]
    if f in ("k", "k2", "w"):
        return ".".join(map(str, v)) if v else "."
    if f == "v":
        return ",".join(map(str, v)) if v else "_"
    if f == "ps":
        return ",".join("%s=%d" % (".".join(map(str, w)) if w else ".", x) for w, x in v) if v else "_"
    if f == "i":
        return str(sum(x * 1000 ** i for i, x in enumerate(v)))
    if f == "d" and v == -1:
        return "-"
    return str(v)


def line_of(e, kind):
    op = e["op"]
    names = NAMES[op]
    if op == "iter" and kind == "keys":
        names = ["j"]
    if op == "get" and kind == "table":
        names = ["d"]
    return " ".join([op] + [token(e, f) for f in names])


def scripts_from_tlc(out, begin):
    kind = begin.split()[1]
    seen = set()
    for l in out.splitlines():
        if l.startswith('"SCRIPT '):
            seen.add(json.loads(l)[len("SCRIPT "):])
    eps = []
    for t in sorted(seen):
        eps.append([begin] + [line_of(e, kind) for e in json.loads(t)])
    # an episode that is the beginning of another one adds nothing
    eps.sort()
    keep = []
    for i, e in enumerate(eps):
        if i + 1 < len(eps) and eps[i + 1][:len(e)] == e:
            continue
        keep.append(e)
    return keep


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset, list)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    return str(v)


CHECKS = {"GenDense": ("TypeOk WriteThrough OneOwner", "NotBehindTheBack Frame SelfConsistent"),
          "GenSparse": ("TypeOk", "Frame SelfConsistent"),
          "GenKeys": ("TypeOk RoundTrip", "Refuses"),
          "GenHall": ("", "NeverShrinks")}


def gen_cfg(module, consts, path):
    inv, prop = CHECKS[module]
    ls = ["CONSTANTS"]
    for k, v in consts.items():
        if isinstance(v, str) and v.startswith("@"):
            ls.append("  %s <- %s" % (k, v[1:]))
        else:
            ls.append("  %s = %s" % (k, tla(v)))
    ls += ["SPECIFICATION Spec", "VIEW View", "ACTION_CONSTRAINT Emit"]
    if inv:
        ls.append("INVARIANTS " + inv)
    if prop:
        ls.append("PROPERTIES " + prop)
    ls.append("CHECK_DEADLOCK FALSE")
    with open(path, "w") as f:
        f.write("\n".join(ls) + "\n")


def module_of(begin):
    w = begin.split()
    if w[1] == "keys":
        return "KeyTrace"
    if w[1] == "vec":
        return "SparseTrace" if w[2] in ("s", "ws") else "DenseTrace"
    if w[1] in ("coef", "rvec"):
        return "FloatTrace"
    return "HallTrace"


def short(text, most=400):
    """samples in the evidence stay readable"""
    return text if len(text) <= most else "%s... (%d characters)" % (text[:most], len(text))


class Job:
    def __init__(self, name, module, eps, profile, processes=1):
        self.name, self.module, self.eps, self.profile, self.processes = name, module, eps, profile, processes


class Violation(Exception):
    def __init__(self, text, data):
        Exception.__init__(self, text)
        self.data = data


class Run:
    def __init__(self, prop, plan, tier, seed):
        self.prop, self.plan, self.tier, self.seed = prop, plan, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(WORK, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.makedirs(EVID, exist_ok=True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "calls_validated": 0,
                    "checked_calls": 0, "model_checking": [], "generated_by_tlc": 0, "random_episodes": 0,
                    "negative_controls": 0, "not_judged_episodes": 0, "samples": [], "calls_by_operation": {}}
        self.lock = threading.Lock()
        self.drivers = {}
        self.control_done, self.control_failed = {}, {}
        self.without = ()                # hooks that do not compile

    def rng(self, *what):
        return random.Random("%s/%s/%s" % (self.seed, self.prop, "/".join(map(str, what))))

    def say(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    # ------------------------------------------------------------------ the specification on its own
    def model_check(self, module, cfg, expect=None, workers=4):
        meta = os.path.join(self.dir, "mc-%s" % cfg)
        rc, out = tools.model_check(module, cfg, workers=workers, meta=meta, heap="6g",
                                    timeout=800 if self.tier == "quick" else 7200)
        shutil.rmtree(meta, ignore_errors=True)
        if expect:
            if rc == 0 or expect not in out:
                raise ToolError("%s with %s does not violate %s as it should:\n%s" % (module, cfg, expect, out[-1500:]))
            with self.lock:
                self.cov["negative_controls"] += 1
            return
        gen, dist = tools.explored(module, rc, out)
        with self.lock:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            self.cov["model_checking"].append({"module": module, "configuration": cfg, "states": dist, "transitions": gen})
        self.say("model checked", module, cfg, dist, "states")

    def prove(self, module):
        n = tools.prove(module)
        with self.lock:
            self.cov.setdefault("proved", []).append({"module": module, "obligations": n})
        self.say("proved", module, n, "obligations")

    def generate(self, i, module, consts, begins, limit=None):
        cfg = os.path.join(self.dir, "gen%d.cfg" % i)
        gen_cfg(module, consts, cfg)
        meta = os.path.join(self.dir, "meta-gen%d" % i)
        rc, out = tools.model_check(module, cfg, workers=1, meta=meta, timeout=1500)
        shutil.rmtree(meta, ignore_errors=True)
        gen, dist = tools.explored(module, rc, out)
        eps = []
        for b in begins:
            es = scripts_from_tlc(out, b)
            if not es:
                raise ToolError("no behaviours from %s" % module)
            full = len(es)
            if limit and len(es) > limit:
                es = self.rng("limit", i, b).sample(es, limit)
            eps.append((es, full))
        with self.lock:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            self.cov["model_checking"].append({"module": module, "operations": sorted(consts.get("Ops", [])), "states": dist,
                                               "transitions": gen, "behaviours": eps[0][1], "replayed": sum(len(e) for e, _ in eps)})
            self.cov["generated_by_tlc"] += sum(len(e) for e, _ in eps)
        self.say("generated", module, dist, "states", [len(e) for e, _ in eps], "behaviours")
        return [e for es, _ in eps for e in es]

    # ------------------------------------------------------------------ the library against it
    def write_script(self, path, eps):
        with open(path, "w") as f:
            for e in eps:
                if self.header()["twin"]:
                    e = [e[0] + " twin"] + e[1:]
                f.write("\n".join(e) + "\n")

    def record(self, job, eps, base):
        """runs the episodes, returns the path of the log"""
        script, log = base + ".script", base + ".log"
        self.write_script(script, eps)
        mark = job.module == "HallTrace"
        tools.drive(self.drivers[job.profile], script, log, processes=job.processes, mark=mark)
        return log

    def header(self):
        h = {"checked": [], "must": [], "frame": 0, "mem": 0, "bufs": 0, "twin": 0}
        h.update(self.plan["header"])
        return h

    def judge(self, job, log):
        """None or (line in the log, text)"""
        head = self.header()
        dropped = 0
        while True:
            v = tools.validate(job.module, log, head, log + ".meta", timeout=800 if self.tier == "quick" else 3000)
            if v[0] == "ok":
                return None, v[1]
            lines = open(log).read().splitlines()
            at = min(v[1] - 2, len(lines) - 1)
            e = json.loads(lines[at])
            if v[0] == "rejected":
                return (at, e, "not a behaviour of the specification"), at
            watched = e["op"] in head["checked"] or head["twin"] or head["mem"] or head["bufs"]
            if watched:
                return (at, e, "outside of what the specification can express: " + v[2][-300:]), at
            # an unchecked call left values the specification cannot hold: set the episode aside
            dropped += 1
            lines = [l for l in lines if json.loads(l)["ep"] != e["ep"]]
            with self.lock:
                self.cov["not_judged_episodes"] += 1
            if dropped > 4:
                lines = lines[:at]
            with open(log, "w") as f:
                f.write("".join(l + "\n" for l in lines))
            if dropped > 6 or not lines:
                return None, len(lines)

    def job(self, job):
        base = os.path.join(self.dir, job.name)
        log = self.record(job, job.eps, base)
        bad, n = self.judge(job, log)
        head = self.header()
        if bad:
            at, e, why = bad
            self.violation(job, log, at, e, why)
        # count what was checked
        ops = {}
        checked = 0
        eps = set()
        every = head["twin"] or head["mem"] or head["bufs"] or head["frame"] == 2
        with open(log) as f:
            for l in f:
                op = re.match(r'\{"op":"(\w+)","ep":(\d+)', l)
                ops[op.group(1)] = ops.get(op.group(1), 0) + 1
                eps.add(op.group(2))
        for o, c in ops.items():
            if o in ("begin", "process"):
                continue
            if o in head["checked"] or o in head["must"] or every:
                checked += c
        with self.lock:
            c = self.cov
            c["states"] += n
            c["transitions"] += n
            c["calls_validated"] += sum(v for o, v in ops.items() if o not in ("begin", "process"))
            c["checked_calls"] += checked
            c["traces_validated_against_impl"] += len(eps) * job.processes
            for o, v in ops.items():
                c["calls_by_operation"][o] = c["calls_by_operation"].get(o, 0) + v
            if len(c["samples"]) < 3:
                c["samples"].append({"trace": job.name, "module": job.module, "profile": job.profile,
                                     "episode": [short(l) for l in job.eps[0][:6]],
                                     "first_events": [json.loads(l) if len(l) < 600 else short(l) for l in open(log).read().splitlines()[1:4]]})
        self.control(job, log)
        for x in (".log.nd", ".log", ".script"):
            if os.path.exists(base + x):
                os.remove(base + x)

    def control(self, job, log):
        """a tampered log has to be rejected"""
        with self.lock:
            if self.control_done.get(job.module):
                return
            self.control_done[job.module] = True
        rng = self.rng("control", job.name)
        head = self.header()
        every = head["twin"] or head["bufs"]
        lines = open(log).read().splitlines()
        cand = [i for i, l in enumerate(lines) if tamperable(json.loads(l), head, every)]
        rng.shuffle(cand)
        for n, i in enumerate(cand[:25]):
            e = tamper(json.loads(lines[i]), head)
            if e is None:
                continue
            ep = e["ep"]
            lo = i
            while lo > 0 and json.loads(lines[lo])["op"] != "begin":
                lo -= 1
            hi = i + 1
            while hi < len(lines) and json.loads(lines[hi])["ep"] == ep and json.loads(lines[hi])["op"] != "begin":
                hi += 1
            t = os.path.join(self.dir, "control-%s-%d.log" % (job.module, n))
            with open(t, "w") as f:
                f.write("".join(l + "\n" for l in lines[lo:i] + [json.dumps(e)] + lines[i + 1:hi]))
            v = tools.validate(job.module, t, head, t + ".meta")
            os.remove(t); os.remove(t + ".nd")
            if v[0] != "ok":
                with self.lock:
                    self.cov["negative_controls"] += 1
                return
        with self.lock:                  # try another log
            self.control_done[job.module] = False
            self.control_failed[job.module] = job.name

    def violation(self, job, log, at, e, why):
        lines = open(log).read().splitlines()
        ep = e["ep"]
        head = [i for i in range(at + 1) if json.loads(lines[i])["op"] == "begin"][-1]
        steps = at - head
        episode = job.eps[ep][:steps + 1] if job.processes == 1 else job.eps[ep]
        path = os.path.join(EVID, "%s.replay.json" % self.prop)
        data = {"property": self.prop, "why": why, "module": job.module, "profile": job.profile,
                "processes": job.processes, "header": self.header(), "calls": episode, "event": e,
                "events": [json.loads(l) for l in lines[max(head, at - 6):at + 1]],
                "rerun": "python3 check.py --replay %s" % os.path.relpath(path, tools.VERIF)}
        with self.lock:
            with open(path, "w") as f:
                json.dump(data, f, indent=1)
        raise Violation("%s: %s in call %s" % (job.name, why, json.dumps(e)[:600]), path)

    # ------------------------------------------------------------------ all of it
    def pack(self, eps, name, count):
        """episodes to jobs, by module and twin"""
        groups = {}
        for e in eps:
            groups.setdefault(module_of(e[0]), []).append(e)
        jobs = []
        total = sum(len(e) for e in eps) or 1
        for m, es in sorted(groups.items()):
            k = max(1, round(count * sum(len(e) for e in es) / total))
            k = min(k, len(es))
            # the kinds of episodes take turns: mix them, so that each kind meets every profile
            es = es[:]
            self.rng("pack", name, m).shuffle(es)
            es.sort(key=cost, reverse=True)
            parts = [[] for _ in range(k)]
            load = [0] * k
            for e in es:
                j = load.index(min(load))
                parts[j].append(e)
                load[j] += cost(e)
            for j, p in enumerate(parts):
                if not p:
                    continue
                prof = self.plan.get("profiles", ["dev", "plain"])
                jobs.append(Job("%s-%s-%d" % (name, m, j), m, p, prof[j % len(prof)]))
        return jobs

    def possible(self, eps):
        """what can be run without the hooks that do not compile"""
        if "lent" in self.without:
            eps = [e for e in eps if not any(l.startswith("borrow") for l in e)]
        if "parts" in self.without:
            eps = [[l for l in e if not l.startswith("hparts")] for e in eps]
        return eps

    def build(self, profiles, pool):
        """Private interfaces may have changed under a hook: do without it where the property can be observed without."""
        needs = set(self.plan.get("needs", []))
        spare = [h for h in tools.HOOKS if h not in needs]
        first = None
        for without in [()] + [(h,) for h in spare] + [tuple(spare)]:
            try:
                built = list(pool.map(lambda p: tools.build(p, without), profiles))
            except ToolError as x:
                first = first or x
                continue
            self.without = without
            return built
        raise first

    def main(self):
        plan, tier = self.plan, self.tier
        profiles = list(plan.get("profiles", ["dev", "plain"]))
        if tier == "thorough" and "release" not in profiles:
            profiles.append("release")
            plan["profiles"] = profiles
        with cf.ThreadPoolExecutor(len(profiles)) as pool:
            built = self.build(profiles, pool)
            self.drivers.update(zip(profiles, built))
        self.say("built", profiles)
        workers = min(8, os.cpu_count() or 4)
        pool = cf.ThreadPoolExecutor(workers)
        try:
            futs = []
            for k, mc in enumerate(plan.get("mc", [])):
                module, cfg, *rest = mc
                if tier == "thorough" and not rest and os.path.exists(os.path.join(SPEC, cfg.replace(".cfg", ".deep.cfg"))):
                    cfg = cfg.replace(".cfg", ".deep.cfg")
                futs.append(pool.submit(self.model_check, module, cfg, *(rest or [None])))
            if tier == "thorough":
                futs += [pool.submit(self.prove, m) for m in plan.get("proofs", [])]
            rand = self.possible(plan["random"](self, tier))
            self.cov["random_episodes"] = len(rand)
            jobs = self.pack(rand, "random", plan.get("jobs", 8) * (1 if tier == "quick" else 8)) if rand else []
            jobs += plan["jobs_extra"](self, tier) if "jobs_extra" in plan else []
            futs += [pool.submit(self.job, j) for j in jobs]
            gens = [pool.submit(self.generate, i, *g) for i, g in enumerate(plan["gens"](tier))] if "gens" in plan else []
            for i, g in enumerate(gens):
                # every generated behaviour may end with a common look around
                es = [e + plan.get("suffix", []) for e in self.possible(g.result())]
                lim = 9000 if tier == "quick" else 40000
                n = max(1, sum(cost(e) for e in es) // lim)
                futs += [pool.submit(self.job, j) for j in self.pack(es, "tlc%d" % i, n)]
            err = None
            for f in cf.as_completed(futs):
                x = f.exception()
                if x is None:
                    continue
                if isinstance(x, Violation):
                    err = x
                    break
                err = err or x
            if err:
                raise err
        finally:
            pool.shutdown(wait=False, cancel_futures=True)
        return self.finish(0)

    def finish(self, violations):
        c = self.cov
        for m, name in self.control_failed.items():
            if not violations and not self.control_done.get(m):
                raise ToolError("tampered logs of %s are accepted" % name)
        if not violations and (c["checked_calls"] < self.plan.get("least", 100)):
            raise ToolError("only %d calls checked" % c["checked_calls"])
        if self.without:
            c["explicit_exclusions"] = ["verification hooks that do not compile, left out: " + ", ".join(self.without)]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": c,
              "assumptions": self.plan.get("assumptions", []) + ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 2),
              "violations": violations}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.say("calls", c["calls_validated"], "checked", c["checked_calls"], "traces", c["traces_validated_against_impl"])


ASSUMPTIONS = ["the driver (driver/src) reports faithfully what the calls returned and left behind",
               "TLC and its Java overrides of the standard modules are correct"]


def cost(e):
    """rough cost of validating an episode"""
    c = len(e)
    for l in e:
        op = l.split(" ", 1)[0]
        c += len(l) // 60
        c += {"mul": 2, "comm": 4, "exp": 20, "log": 20, "fmexp": 20, "race": 10, "mixed": 10}.get(op, 0)
    return c


def tamperable(e, head, every):
    if e["op"] in ("begin", "process", "heap", "same", "buf", "fuse"):
        return False
    if head["checked"] == [] and head["frame"] == 2:
        return "r" in e
    if not (every or e["op"] in head["checked"] or e["op"] in head["must"]):
        return False
    return bool(e["obs"] or e["res"]) and e["out"] == "ok"


def tamper(e, head):
    """changes one observed value"""
    if head["frame"] == 2 and head["checked"] == []:
        # an unrelated register shows a change
        e["obs"] = e["obs"] + [[[r for r in (1, 2, 3, 4) if r != e["r"] and r != e.get("a")][0], [1]]]
        return e
    if e["obs"]:
        r, v = e["obs"][0]
        if not v:
            return None
        if isinstance(v[0], list):
            e["obs"][0][1][0][1] = (v[0][1] + 1) % 5
        else:
            e["obs"][0][1][0] = v[0] + 1 if v[0] < 4 else v[0] - 1
        return e
    x = e["res"][0]
    while isinstance(x, list) and x and isinstance(x[0], list):
        x = x[0]
    if isinstance(x, list):
        if not x:
            return None
        x[0] = x[0] + 1
    else:
        e["res"][0] = 1 - x if x in (0, 1) else x + 1
    return e
