#!/usr/bin/env python3
"""Runner of the model-based checks.

  run.py setup                      compile overrides and harnesses
  run.py check ID [--tier T] [--seed N]
  run.py replay FILE                re-run one recorded violation against the current tree
"""
import argparse, fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ZZ_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "lib"))
BUILD = os.environ.get("ZZ_BUILD", os.path.join(ROOT, "build"))
EVID = os.environ.get("ZZ_EVIDENCE", os.path.join(ROOT, "evidence"))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GODIR = "/opt/veriftools/go1.27.3/bin"


class CheckError(Exception):
    """the check cannot give an answer (exit 2)"""


def goenv():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env["PATH"] = (GODIR + ":" if os.path.isdir(GODIR) else "") + env.get("PATH", "/usr/bin:/bin")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    return env


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_spec():
    """spec directory with compiled Java overrides; rebuilt if any source changed"""
    with Lock("spec"):
        src = os.path.join(ROOT, "spec")
        names = sorted(n for n in os.listdir(src) if n.endswith((".tla", ".cfg", ".java")))
        h = hashlib.sha256()
        for n in names:
            h.update(n.encode())
            h.update(open(os.path.join(src, n), "rb").read())
        d = os.path.join(BUILD, "spec-" + h.hexdigest()[:16])
        if not os.path.exists(os.path.join(d, "OK")):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for n in names:
                shutil.copy(os.path.join(src, n), d)
            jv = [os.path.join(d, n) for n in names if n.endswith(".java")]
            p = subprocess.run(["javac", "-cp", JARS, "-d", d] + jv, capture_output=True, text=True)
            if p.returncode:
                raise CheckError("javac failed: " + p.stderr)
            open(os.path.join(d, "OK"), "w").close()
            for o in os.listdir(BUILD):
                if o.startswith("spec-") and os.path.join(BUILD, o) != d and not os.environ.get("ZZ_KEEP"):
                    shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
        return d


def build_area(area, race=False):
    """build the harness program of an area against the current tree of REPO"""
    from areas import AREAS
    a = AREAS.get(area, {})
    with Lock("area-" + area):
        replace = {}
        hz = os.path.join(ROOT, "harness")
        def addpkg(virtual, real, only=None):
            for n in sorted(os.listdir(real)):
                if n.endswith(".go") and (only is None or n in only):
                    replace[os.path.join(REPO, virtual, n)] = os.path.join(real, n)
        addpkg("internal/zzverif/zz", os.path.join(hz, "zz"))
        addpkg("internal/zzverif/" + area, os.path.join(hz, area))
        for other, files in a.get("share", {}).items():
            addpkg("internal/zzverif/" + area, os.path.join(hz, other), files)
        for dep in a.get("deps", []):
            addpkg("internal/zzverif/" + dep, os.path.join(hz, dep))
        for pkg, d in a.get("inpackage", {}).items():
            addpkg(pkg, os.path.join(hz, d))
        ov = os.path.join(BUILD, "overlay-%s.json" % area)
        with open(ov, "w") as f:
            json.dump({"Replace": replace}, f)
        out = os.path.join(BUILD, "bin-" + area + ("-race" if race else ""))
        cmd = ["go", "build", "-overlay", ov, "-buildvcs=false", "-o", out]
        if a.get("tags"):
            cmd += ["-tags", a["tags"]]
        if race:
            cmd.append("-race")
        cmd.append("./internal/zzverif/" + area)
        p = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True)
        if p.returncode and not a.get("fallback"):
            raise CheckError("harness %s does not build:\n%s" % (area, p.stderr[-3000:]))
    if p.returncode:
        print("note: unexported parts cannot be reached as expected, %s is used in place of %s:\n%s" % (a["fallback"], area, p.stderr[-1500:]), file=sys.stderr)
        return build_area(a["fallback"], race)
    return out


TLCSTAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def run_tlc(specdir, module, cfg, work, env=None, workers=2, timeout=850, extra=(), heap="3g"):
    os.makedirs(work, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + specdir, "-Djava.io.tmpdir=" + work, "-cp", JARS + ":" + specdir,
           "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(work, "states"), "-noGenerateSpecTE",
           "-config", os.path.join(specdir, cfg), *extra, os.path.join(specdir, module + ".tla")]
    t0 = time.time()
    outf = os.path.join(work, module + ".out")
    with open(outf, "w") as fo:
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
    out = open(outf, errors="replace").read()
    m = None
    for m in TLCSTAT.finditer(out):
        pass
    shutil.rmtree(os.path.join(work, "states"), ignore_errors=True)
    return dict(rc=rc, out=out, generated=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0,
                wall=time.time() - t0, outfile=outf)


def unquote(line):
    """TLC prints strings with quotes; undo that"""
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        line = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    return line


def brief(out, n=1800):
    ls = [x for x in out.splitlines() if x.strip() and not x.startswith(("Parsing file", "Semantic processing", "Starting", "Finished"))]
    i = next((k for k, x in enumerate(ls) if "rror" in x), max(0, len(ls) - 25))
    return "\n".join(ls[i:])[:n]


def shapeless(out):
    """position (episode, event) at which the evaluation of a trace specification failed, if that is why TLC stopped"""
    i = out.find("The behavior up to this point is")
    if i < 0 or re.search(r"StackOverflow|OutOfMemory|Java heap|GC overhead", out):
        return None
    e, l = re.findall(r"^(?:/\\ )?e = (\d+)$", out[i:], re.M), re.findall(r"^(?:/\\ )?l = (\d+)$", out[i:], re.M)
    return (int(e[-1]), int(l[-1])) if e and l else None


def tagged(out, tag):
    res = []
    for line in out.splitlines():
        if tag in line:
            u = unquote(line)
            if u.startswith(tag):
                res.append(json.loads(u[len(tag):]))
    return res


def limits(mem_gb):
    def f():
        if mem_gb:
            b = mem_gb << 30
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.work = os.path.join(BUILD, "work-%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.spec = build_spec()
        self.states = self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.opcount = {}
        self.models = {}
        self.violations = []      # dicts
        self.known = []
        self.assumptions = []
        self.extra_cov = {}
        self.kf = load_known(pid)

    # ---- exhaustive model checking of the specification itself
    def model(self, module, cfg=None, workers=4, timeout=800, simulate=None, heap="3g", min_states=1):
        cfg = cfg or module + ".cfg"
        if os.environ.get("ZZ_NOMODEL"):      # development only: when only the code differs from an earlier run
            return None
        extra = []
        if simulate:
            extra = ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        r = run_tlc(self.spec, module, cfg, os.path.join(self.work, "m-" + cfg), workers=workers, timeout=timeout, extra=extra, heap=heap)
        if r["rc"] != 0:
            raise CheckError("specification %s (%s) fails its own check (rc %d):\n%s" % (module, cfg, r["rc"], brief(r["out"])))
        if not simulate and r["distinct"] < min_states:
            raise CheckError("specification %s explored only %d states" % (module, r["distinct"]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models[cfg] = dict(distinct=r["distinct"], generated=r["generated"], wall_s=round(r["wall"], 1))
        return r

    # ---- behaviours enumerated by TLC, for replay on the code
    def gen(self, module, cfg=None, workers=4, timeout=800, simulate=None, limit=None, env=None):
        cfg = cfg or module + ".cfg"
        extra = []
        if simulate:
            extra = ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
            workers = 1
        r = run_tlc(self.spec, module, cfg, os.path.join(self.work, "g-" + cfg), workers=workers, timeout=timeout, extra=extra, env=env)
        if r["rc"] != 0:
            raise CheckError("generator %s fails (rc %d):\n%s" % (module, r["rc"], brief(r["out"])))
        b = tagged(r["out"], "ZZGEN ")
        if not b:
            raise CheckError("generator %s produced nothing" % module)
        lines = sorted(set(json.dumps(x, sort_keys=True) for x in b))
        if limit and len(lines) > limit:
            import random
            lines = sorted(random.Random(self.seed).sample(lines, limit))
        f = os.path.join(self.work, cfg + ".gen")
        with open(f, "w") as fo:
            fo.write("\n".join(lines) + "\n")
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.extra_cov["behaviours_generated_by_tlc"] = self.extra_cov.get("behaviours_generated_by_tlc", 0) + len(lines)
        self.models[cfg] = dict(distinct=r["distinct"], generated=r["generated"], behaviours=len(lines), wall_s=round(r["wall"], 1))
        return f

    # ---- run the harness
    def _exec(self, binary, suite, out, gen=None, shard=0, shards=1, only=None, timeout=600, mem=12, ep_timeout=20, race=False, n=0):
        cmd = [binary, "-suite", suite, "-seed", str(self.seed), "-tier", self.tier, "-out", out,
               "-shard", str(shard), "-shards", str(shards), "-timeout", str(ep_timeout), "-n", str(n)]
        if gen:
            cmd += ["-in", gen]
        if only:
            cmd += ["-only", only]
        env = goenv()
        env["GOTRACEBACK"] = "all"
        env["GORACE"] = "halt_on_error=1 exitcode=66"
        errf = out + ".err"
        try:
            with open(errf, "w") as fe:
                p = subprocess.run(cmd, cwd=self.work, env=env, stdout=fe, stderr=fe, timeout=timeout,
                                   preexec_fn=limits(0 if race else mem))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -999
        err = open(errf, errors="replace").read()
        cur = ""
        try:
            cur = open(out + ".cur").read().strip()
        except OSError:
            pass
        return dict(rc=rc, err=err[-6000:] if len(err) > 6000 else err, errhead=err[:6000], cur=cur, out=out)

    def trace(self, area, suite, module, cfg=None, gen=None, shards=6, race=False, workers=2, timeout=600, ep_timeout=20,
              heap="2500m", crash_is_violation=True, states_per_ep=None, env=None, n=0):
        """run suite on the real code, validate what was recorded against trace specification module"""
        cfg = cfg or module + ".cfg"
        binary = build_area(area, race)
        tag = "%s-%s" % (suite, module)

        def one(i):
            out = os.path.join(self.work, "%s-%d.ndjson" % (tag, i))
            r = self._exec(binary, suite, out, gen, i, shards, timeout=timeout, ep_timeout=ep_timeout, race=race, n=n)
            return i, r
        with ThreadPoolExecutor(shards) as ex:
            rs = list(ex.map(one, range(shards)))
        for i, r in rs:
            if r["rc"] == 0 and r["cur"] == "DONE":
                continue
            if r["rc"] == 3:
                raise CheckError("harness error in %s: %s" % (suite, r["err"]))
            if not crash_is_violation:
                raise CheckError("harness %s ended with %s: %s" % (suite, r["rc"], r["err"]))
            # the real code crashed or hung in an episode: reproduce it alone
            again = self.crash(binary, area, suite, module, gen, r, race, ep_timeout, dict(shard=i, shards=shards, timeout=timeout, n=n))
            if again:                       # it was slow, not stuck
                os.replace(again["out"], r["out"])
                r.update(rc=0)
        def val(i):
            out = os.path.join(self.work, "%s-%d.ndjson" % (tag, i))
            return i, self.validate(out, module, cfg, i, workers, heap, env)
        good = [i for i, r in rs if r["rc"] == 0]
        with ThreadPoolExecutor(max(1, min(4, shards))) as ex:
            vs = list(ex.map(val, good))
        unconfirmed = []
        for i, (mm, eps) in vs:
            seen = set()
            for m in mm:
                if m["id"] in seen:
                    continue
                seen.add(m["id"])
                try:
                    self.mismatch(binary, area, suite, module, cfg, gen, m, race, ep_timeout, env, n, dict(shard=i, shards=shards, timeout=timeout))
                except CheckError as e:
                    unconfirmed.append(e)
                    if len(unconfirmed) > 5:
                        raise
                if len(self.violations) >= 5:
                    return
        if unconfirmed:
            raise unconfirmed[0]

    def validate(self, path, module, cfg, i, workers=2, heap="2500m", env=None, count=True):
        eps = []
        nev = 0
        with open(path) as f:
            for line in f:
                d = json.loads(line)
                eps.append((d["id"], len(d["ev"])))
                nev += len(d["ev"])
                if count:
                    for ev in d["ev"]:
                        self.opcount[ev["op"]] = self.opcount.get(ev["op"], 0) + 1
                    if len(self.samples) < 3 and len(line) < 3000:
                        self.samples.append(d)
        if not eps:
            return [], eps
        e = dict(env or {})
        e["ZZTRACE"] = path
        r = run_tlc(self.spec, module, cfg, path + ".tlc", env=e, workers=workers, heap=heap)
        mm = tagged(r["out"], "ZZMISMATCH ")
        if r["rc"] != 0:
            # a recorded value of a shape the specification cannot even compare with the demanded one (a truth value in place
            # of a point, an element outside the domain of a relation): TLC names the episode and the position it stands at
            at = shapeless(r["out"])
            if not at:
                raise CheckError("trace specification %s failed on %s (rc %d):\n%s" % (module, path, r["rc"], brief(r["out"])))
            ep, line = at
            with open(path) as f:
                for k, text in enumerate(f):
                    if k == ep - 1:
                        d = json.loads(text)
            return mm + [dict(ep=ep, id=d["id"], line=line, op=d["ev"][line - 1]["op"], what="recorded value of an unexpected kind",
                              expected=brief(r["out"], 400))], eps
        want = nev + len(eps)
        if not mm and r["distinct"] != want:
            raise CheckError("%s: %d states explored, %d expected; %s" % (module, r["distinct"], want, r["out"][-1500:]))
        if count:
            self.states += r["distinct"]
            self.transitions += r["generated"]
            self.traces += len(eps)
            self.events += nev
        return mm, eps

    def find(self, path, epid):
        with open(path) as f:
            for line in f:
                d = json.loads(line)
                if d["id"] == epid:
                    return d
        return None

    def mismatch(self, binary, area, suite, module, cfg, gen, m, race, ep_timeout, env=None, n=0, context=None):
        """a recorded call the specification rejects: execute the episode again, alone, and validate it again; if it is accepted
        alone, execute it again after the same episodes as before (what happens may depend on the state of the process)"""
        out = os.path.join(self.work, "repro-%d.ndjson" % len(os.listdir(self.work)))
        confirmed = None
        for attempt in range(20 if race else 2):
            r = self._exec(binary, suite, out, gen, only=m["id"], ep_timeout=ep_timeout, race=race, n=n)
            if r["rc"] != 0:
                if r["rc"] == 3:
                    raise CheckError("harness error on replay of %s: %s" % (m["id"], r["err"]))
                self.crash(binary, area, suite, module, gen, r, race, ep_timeout)
                return
            mm, _ = self.validate(out, module, cfg, 0, 1, "1g", env, count=False)
            if mm:
                confirmed = mm[0]
                context = None
                break
        if not confirmed and context:
            for attempt in range(3 if race else 1):
                r = self._exec(binary, suite, out, gen, context["shard"], context["shards"], timeout=context["timeout"], ep_timeout=ep_timeout, race=race, n=n)
                if r["rc"] == 0:
                    mm, _ = self.validate(out, module, cfg, 0, 2, "2500m", env, count=False)
                    mm = [x for x in mm if x["id"] == m["id"]]
                    if mm:
                        confirmed = mm[0]
                        break
        if not confirmed:
            raise CheckError("%s: rejected episode %s was accepted when executed again" % (suite, m["id"]))
        ep = self.find(out, m["id"])
        ev = ep["ev"][confirmed["line"] - 1]
        self.add_violation(dict(kind="rejected call", area=area, suite=suite, spec=module, episode=m["id"], line=confirmed["line"],
                                op=confirmed["op"], what=confirmed["what"], expected=confirmed["expected"], event=ev,
                                history=ep["ev"][:confirmed["line"]][-8:], record={k: v for k, v in ep.items() if k != "ev"}, context=context), gen, env, cfg, race, n)

    def crash(self, binary, area, suite, module, gen, r, race, ep_timeout, context=None):
        epid = r["cur"]
        out = os.path.join(self.work, "crash-%d.ndjson" % len(os.listdir(self.work)))
        if not epid and dies_at_init(r):
            r2 = self._exec(binary, suite, out, gen, ep_timeout=ep_timeout, race=race, n=1)
            if not r2["cur"] and dies_at_init(r2):
                self.add_violation(dict(kind="crash", area=area, suite=suite, spec=module, episode="init", line=0, op="init", what="the package cannot be loaded",
                                        expected="the package initializes", event=dict(op="init"), stderr=r2["errhead"], context=None), gen, None, None, race, 0)
                return None
        if not epid or epid == "DONE" or r["rc"] == -999:
            raise CheckError("harness %s died (%s) outside an episode: %s" % (suite, r["rc"], r["err"]))
        for attempt in range(20 if race else 2):
            r2 = self._exec(binary, suite, out, gen, only=epid, ep_timeout=ep_timeout, race=race, timeout=ep_timeout + 60)
            if r2["rc"] not in (0, 3, -999):
                context = None
                break
        else:
            if context:
                r2 = self._exec(binary, suite, out, gen, context["shard"], context["shards"], timeout=context["timeout"], ep_timeout=ep_timeout, race=race, n=context["n"])
            if context and r["rc"] == 97 and r2["rc"] in (0, 97):
                # on a loaded machine: the same episodes once more, with more patience
                r2 = self._exec(binary, suite, out, gen, context["shard"], context["shards"], timeout=context["timeout"], ep_timeout=5 * ep_timeout, race=race, n=context["n"])
                if r2["rc"] == 0 and r2["cur"] == "DONE":
                    return r2
            if not context or r2["rc"] in (0, 3, -999) or r2["cur"] != epid:
                raise CheckError("%s: crash of episode %s (rc %s) not reproducible: %s" % (suite, epid, r["rc"], r["err"]))
        kind = {97: "hang", 66: "data race"}.get(r2["rc"], "crash")
        self.add_violation(dict(kind=kind, area=area, suite=suite, spec=module, episode=epid, line=0, op=kind, what=kind,
                                expected="the call returns", event=dict(op=kind), stderr=r2["errhead"], context=context), gen, None, None, race, 0)

    def add_violation(self, v, gen, env, cfg, race, n):
        v["property"] = self.pid
        v["seed"], v["tier"] = self.seed, self.tier
        for k in self.kf:
            if matches(k["match"], v):
                self.known.append((k, v))
                return
        rp = os.environ.get("ZZ_REPLAYS", os.path.join(ROOT, "replays"))
        os.makedirs(rp, exist_ok=True)
        name = os.path.join(rp, "%s-%s-%s.json" % (self.pid, v["suite"], re.sub(r"[^A-Za-z0-9_.-]", "_", v["episode"])))
        if gen:
            v["gen_file"] = name + ".in"
            shutil.copy(gen, v["gen_file"])
        v["how"] = "python3 /verif/run.py replay " + name
        v["env"], v["cfg"], v["race"], v["n"] = env, cfg, race, n
        with open(name, "w") as f:
            json.dump(v, f, indent=1)
        v["replay"] = name
        self.violations.append(v)

    def evidence(self, level, rule):
        cov = dict(samples=self.samples or ["(no trace in this run)"], events=self.events, operations=self.opcount, models=self.models)
        if level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces)
        else:
            cov.update(evaluations=self.events, distinct_nontrivial=self.traces, rule=rule)
        cov["rule"] = rule
        cov.update(self.extra_cov)
        d = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                 wall_s=round(time.time() - self.t0, 1), violations=len(self.violations), assumptions=self.assumptions)
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(d, f, indent=1)


def dies_at_init(r):
    """the harness program ended in the initialization of a package under test, before anything was asked of it"""
    return r["rc"] == 2 and re.search(r"^(panic: |fatal error: )", r["errhead"], re.M) and \
        re.search(r"^github\.com/GottfriedHerold/Bandersnatch/(?!internal/zzverif)[\w/]+\.init\b", r["errhead"], re.M) and \
        not re.search(r"^main\.", r["errhead"], re.M)


def load_known(pid):
    f = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get("findings", []) if k["property"] == pid]


def matches(pat, v):
    """pat: dict path -> regex or literal, on the violation record"""
    for k, want in pat.items():
        x = v
        for part in k.split("."):
            x = x.get(part) if isinstance(x, dict) else None
        if isinstance(want, str) and want.startswith("re:"):
            if not re.search(want[3:], x if isinstance(x, str) else json.dumps(x)):
                return False
        elif x != want:
            return False
    return True


def cmd_check(a):
    from checks import CHECKS
    c = CHECKS[a.id]
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(a.id, tier, seed)
    try:
        c["run"](ctx)
    except CheckError as e:
        if not ctx.violations:
            print("ERROR property=%s %s" % (a.id, e))
            return 2
        print("note: the run ended early: %s" % str(e)[:500])
    finally:
        if not os.environ.get("ZZ_KEEP"):
            shutil.rmtree(ctx.work, ignore_errors=True)
    ctx.evidence(c["level"], c["rule"])
    done = set()
    for k, v in ctx.known:
        if k["id"] not in done:
            done.add(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (a.id, k["what"]))
    if ctx.violations:
        for v in ctx.violations:
            print("VIOLATION property=%s replay=%s" % (a.id, v["replay"]))
            print("  %s in %s: %s (expected %s); event %s" % (v["op"], v["episode"], v["what"], json.dumps(v["expected"])[:400], json.dumps(v["event"])[:600]))
        return 1
    print("OK property=%s tier=%s seed=%d: %d model/trace states, %d episodes of the real code validated (%d calls), %.1f s"
          % (a.id, tier, seed, ctx.states, ctx.traces, ctx.events, time.time() - ctx.t0))
    return 0


def cmd_replay(a):
    v = json.load(open(a.file))
    ctx = Ctx(v["property"], v["tier"], v["seed"])
    binary = build_area(v["area"], v.get("race") or False)
    out = os.path.join(ctx.work, "replay.ndjson")
    k = v.get("context")
    how = dict(shard=k["shard"], shards=k["shards"], timeout=k["timeout"]) if k else dict(only=v["episode"] if v["episode"] != "init" else None)
    r = ctx._exec(binary, v["suite"], out, v.get("gen_file"), race=v.get("race") or False, n=v.get("n") or 0, **how)
    if r["rc"] != 0:
        print("harness ended with", r["rc"], r["err"])
        return 1
    mm, _ = ctx.validate(out, v["spec"], v.get("cfg") or v["spec"] + ".cfg", 0, 1, "1g", v.get("env"))
    shutil.rmtree(ctx.work, ignore_errors=True)
    mm = [m for m in mm if m["id"] == v["episode"]]
    for m in mm:
        print(json.dumps(m, indent=1))
    print("rejected" if mm else "accepted")
    return 1 if mm else 0


def cmd_setup(a):
    from areas import AREAS
    build_spec()
    rc = 0
    for n in AREAS:
        for race in ([False, True] if AREAS[n].get("race") else [False]):
            try:
                build_area(n, race)
            except CheckError as e:
                print(e)
                rc = 1
    print("setup done" if rc == 0 else "setup incomplete")
    return rc


def cmd_model(a):
    work = tempfile.mkdtemp(prefix="zzmodel")
    r = run_tlc(build_spec(), a.module, a.cfg or a.module + ".cfg", work, workers=6, heap="8g")
    print(brief(r["out"], 4000) if r["rc"] else r["out"][-600:])
    print("rc", r["rc"], "distinct", r["distinct"], "wall %.1f" % r["wall"])
    shutil.rmtree(work, ignore_errors=True)
    return r["rc"]


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd", required=True)
    sp.add_parser("setup")
    p = sp.add_parser("check")
    p.add_argument("id")
    p.add_argument("--tier")
    p.add_argument("--seed", type=int)
    p = sp.add_parser("replay")
    p.add_argument("file")
    p = sp.add_parser("model", help="development: run TLC on one model")
    p.add_argument("module")
    p.add_argument("cfg", nargs="?")
    a = ap.parse_args()
    try:
        sys.exit({"setup": cmd_setup, "check": cmd_check, "replay": cmd_replay, "model": cmd_model}[a.cmd](a))
    except CheckError as e:
        print("ERROR", e)
        sys.exit(2)


if __name__ == "__main__":
    main()
