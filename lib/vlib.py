"""Infrastructure of the checks: run TLC on the specification, run the real code
in subprocesses, collect violations, write the evidence file."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
WORK = os.path.join(VERIF, ".work", str(os.getpid()))
PY = "/opt/venv/bin/python"
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    """The machinery itself failed (exit 2), not a verdict."""


def workdir(name):
    os.makedirs(WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix=name + "-", dir=WORK)
    return d


_classes = None


def classes():
    """Compile the arithmetic override of TLC (Rat.java) and of text (Str.java)."""
    global _classes
    if _classes is None:
        d = workdir("classes")
        r = subprocess.run(["javac", "-cp", TLAJARS, "-d", d, os.path.join(SPEC, "Rat.java"),
                            os.path.join(SPEC, "Str.java")],
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError("javac failed: " + r.stderr)
        _classes = d
    return _classes


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.lines = {}

    def tagged(self, tag):
        """Lines printed by PrintT("TAG|...")."""
        r = []
        for l in self.out.split("\n"):
            if l.startswith('"' + tag + "|"):
                # TLC prints the string with escapes of its content
                r.append(l[1:-1][len(tag) + 1:].replace('\\"', '"').replace("\\\\", "\\"))
        return r


def tlc(module, cfg, env=None, workers=NCPU, timeout=800, heap="6g", ok_rc=(0,), simulate=None, extra=()):
    """Run TLC; module is the name of a module in spec/, cfg is the text of the configuration."""
    d = workdir("tlc-" + module)
    c = os.path.join(d, module + ".cfg")
    with open(c, "w") as f:
        f.write(cfg)
    cmd = ["java", "-Xss128m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Dtlc2.TLC.stopAfter=%d" % timeout,
           "-cp", classes() + ":" + TLAJARS, "tlc2.TLC", "-metadir", d, "-workers", str(workers),
           "-config", c, "-noGenerateSpecTE"]
    cmd += list(extra)
    cmd.append(module + ".tla")
    e = dict(os.environ)
    e["TOL"] = "1e-9"
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout + 30)
    except subprocess.TimeoutExpired:
        shutil.rmtree(d, ignore_errors=True)
        raise CheckError("TLC did not finish in %d s (%s)" % (timeout, module))
    shutil.rmtree(d, ignore_errors=True)
    res = TlcResult(r.stdout, r.returncode, time.time() - t)
    if r.returncode not in ok_rc:
        raise CheckError("TLC failed on %s (rc %d):\n%s\n%s" % (module, r.returncode, r.stdout[-4000:], r.stderr[-2000:]))
    return res


_pyc = None


def drive(script, jobs, timeout=300, nproc=NCPU, args=(), unit_timeout=60, cwd=None):
    """Run harness/<script> on every job (a JSON value), in nproc processes, and
    return the list of results in the order of the jobs.

    The driver reads jobs from stdin, one JSON per line, and answers with one
    JSON line per job.  A job on which the code under test hangs or which kills
    the interpreter yields {"died": reason}."""
    global _pyc
    if _pyc is None:
        _pyc = workdir("pyc")
    e = dict(os.environ)
    e.update(PYTHONPATH=os.path.join(REPO, "src") + os.pathsep + HARNESS, PYTHONPYCACHEPREFIX=_pyc,
             PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             MPLBACKEND="Agg", PYTHONWARNINGS="ignore")
    results = [None] * len(jobs)
    deadline = time.time() + timeout
    chunks = [list(range(k, len(jobs), nproc)) for k in range(nproc)]

    def one(idx):
        todo = list(idx)
        while todo:
            if time.time() > deadline:
                raise CheckError("driver %s: out of time with %d jobs left" % (script, len(todo)))
            scratch = workdir("run")
            inp = os.path.join(scratch, "jobs")
            with open(inp, "w") as f:
                for k in todo:
                    f.write(json.dumps(jobs[k]) + "\n")
            outp = os.path.join(scratch, "out")
            with open(inp) as fi, open(outp, "w") as fo, open(os.path.join(scratch, "err"), "w") as fe:
                p = subprocess.Popen([PY, os.path.join(HARNESS, script)] + list(args), stdin=fi, stdout=fo,
                                     stderr=fe, env=e, cwd=cwd or scratch)
                last, t0, dead = -1, time.time(), None
                while True:
                    try:
                        p.wait(timeout=0.05 if time.time() - t0 < 2 else 0.3)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    size = os.path.getsize(outp)
                    if size != last:
                        last, t0 = size, time.time()
                    elif time.time() - t0 > unit_timeout:
                        p.kill(); p.wait(); dead = "no answer in %d s" % unit_timeout
                        break
            with open(outp) as f:
                lines = [l for l in f.read().split("\n")]
            done = 0
            for l in lines:
                if not l.strip():
                    continue
                try:
                    v = json.loads(l)
                except ValueError:
                    break
                results[todo[done]] = v
                done += 1
            err = open(os.path.join(scratch, "err")).read()
            shutil.rmtree(scratch, ignore_errors=True)
            if done == len(todo):
                return
            if done == 0 and dead is None and p.returncode != 0 and "Traceback" in err:
                # the driver could not even start: the code under test cannot be imported
                raise CheckError("driver %s failed:\n%s" % (script, err[-3000:]))
            results[todo[done]] = {"died": dead or ("interpreter ended with code %s" % p.returncode), "err": err[-2000:]}
            todo = todo[done + 1:]

    with ThreadPoolExecutor(nproc) as ex:
        list(ex.map(one, [c for c in chunks if c]))
    return results


def load_findings(prop):
    """Open findings listed for a property: lines 'finding: property=<id> key=<key> <text>'."""
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.tier, self.seed = TIER, SEED
        self.states = self.transitions = self.traces = self.evals = 0
        self.samples, self.bad, self.notes, self.assume = [], [], {}, []
        self.cover = {}
        self.known = load_findings(prop)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def mc(self, res, what):
        """Account for an exhaustive TLC run."""
        self.states += res.distinct
        self.transitions += max(0, res.generated)
        self.notes[what] = {"distinct": res.distinct, "generated": res.generated, "wall_s": round(res.wall, 1)}

    def sample(self, s, n=4):
        if len(self.samples) < n:
            self.samples.append(s)

    def violation(self, key, text, replay):
        """replay: JSON value that reproduces the failure."""
        self.bad.append((key, text, replay))

    def finish(self):
        new, seen = [], set()
        for key, text, replay in self.bad:
            if key in self.known:
                if key not in seen:
                    seen.add(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[key]))
                continue
            new.append((key, text, replay))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples,
               "runs": self.notes, **self.cover}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            for key, text, replay in new[:5]:
                b = json.dumps({"property": self.prop, "what": text, "case": replay}, indent=1)
                p = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha1(b.encode()).hexdigest()[:10]))
                with open(p, "w") as f:
                    f.write(b)
                print("  %s: %s" % (key, text))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            if len(new) > 5:
                print("  ... and %d more" % (len(new) - 5))
        return 1 if new else 0


def main(table):
    prop = sys.argv[1]
    try:
        if len(sys.argv) > 2:
            os.environ["VERIF_TIER"] = sys.argv[2]
            global TIER
            TIER = sys.argv[2]
        c = Check(prop)
        table[prop](c)
        if c.traces == 0 and not c.bad:
            raise CheckError("nothing was explored")
        rc = c.finish()
        print("%s %s: %d states, %d transitions, %d traces of the real code, %.1f s -> %s" % (
            prop, c.tier, c.states, c.transitions, c.traces, time.time() - c.t0, "VIOLATED" if rc else "held"))
        return rc
    except CheckError as e:
        print("CHECK ERROR property=%s: %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(WORK, ignore_errors=True)
