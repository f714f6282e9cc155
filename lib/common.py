"""Shared driver code: building, recording, running TLC, reporting.

Exit status of a check: 0 held, 1 violated (with a VIOLATION line), 2 the check itself could not work.
"""
import hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LAPEX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
SPEC = os.path.join(VERIF, "spec")
CORES = 8
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


DESIGN = {"C01": ["MCRegex", "MCLexer"], "C02": ["MCRegex", "MCLexer"], "C03": ["MCRegex", "MCLexer"], "C15": ["MCRegex"], "C16": ["MCRegex"],
          "C04": ["MCGrammar"], "C05": ["MCGrammar"], "C06": ["MCGrammar"], "C07": ["MCGrammar"], "C20": ["MCGrammar"],
          "C08": ["MCDriver"], "C09": ["MCDriver"], "C10": ["MCDriver"], "C11": ["MCDriver"], "C12": ["MCDriver"], "C13": ["MCDriver"], "C21": ["MCDriver"],
          "C14": ["MCDriver", "MCGrammar"], "C23": ["MCLexer", "MCDriver"], "C25": ["MCDriver"], "C26": ["MCLexer", "MCDriver"], "C27": ["MCAutomaton"], "C29": ["MCRegex", "MCAutomaton"], "C30": ["MCDriver"]}


class ToolError(Exception):
    """the check cannot give an answer"""


def repo_hash():
    h = hashlib.sha256()
    out = subprocess.run(["git", "-C", REPO, "ls-files", "-z", "--cached", "--others", "--exclude-standard"], capture_output=True)
    names = [n for n in out.stdout.split(b"\0") if n]
    if out.returncode != 0 or not names:
        names = []
        for d, ds, fs in os.walk(REPO):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            names += [os.path.relpath(os.path.join(d, f), REPO).encode() for f in sorted(fs)]
    for n in sorted(names):
        p = os.path.join(REPO.encode(), n)
        h.update(n + b"\0")
        try:
            with open(p, "rb") as f:
                h.update(f.read())
        except OSError:
            h.update(b"?")
    return h.hexdigest()


def build_harness(cli=False, units=False):
    """builds the harness crate (and with it the current /repo) and returns the directory of its binaries"""
    # units uses other parts of the public interface: a build of its own, so that it only matters to the checks that need it
    bins = ["--bin", "units"] if units else ["--bin", "dump", "--bin", "gen"]
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(BUILD, "repo.hash")
    now = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        fp = os.path.join(TARGET, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("lapex"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        if os.path.exists(stamp):
            os.remove(stamp)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="0")
    for args in (["--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")] + bins,) + ((["--manifest-path", os.path.join(REPO, "Cargo.toml"), "-p", "lapex-cli"],) if cli else ()):
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet"] + args, env=env, capture_output=True, text=True)
        if r.returncode != 0 and os.path.isdir(os.path.join(TARGET, "debug", "build")):
            # files that an earlier build left behind must not matter
            for d in os.listdir(os.path.join(TARGET, "debug", "build")):
                if d.startswith("lapex"):
                    shutil.rmtree(os.path.join(TARGET, "debug", "build", d), ignore_errors=True)
            r = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet"] + args, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("cargo build failed:\n" + r.stderr[-4000:])
    with open(stamp, "w") as f:
        f.write(now)
    return os.path.join(TARGET, "debug")


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.work = os.path.join(BUILD, "work", "%s-%d" % (pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.start = time.time()
        self.bins = None
        self.states = 0
        self.transitions = 0
        self.runs = []           # one entry per TLC run
        self.violations = []     # (case id, verdict, data)
        self.counts = {}
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.nontrivial = set()
        self.evaluated = 0
        self.timing = {}

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, key, k=1):
        self.counts[key] = self.counts.get(key, 0) + k

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.start), *a, file=sys.stderr, flush=True)

    def build(self, cli=False, units=False):
        if self.bins is None or cli:
            self.bins = build_harness(cli, units)
            self.log("harness built")
        return self.bins

    # ---- recording what the real library does -------------------------------------------
    def harness(self, binary, jobs, timeout=20):
        """jobs: list of dicts with unique "id". Returns {id: result}. A job that crashes or hangs the
        process gives {"status": "panic", ...}."""
        self.build(units=binary == "units")
        exe = os.path.join(self.bins, binary)
        results = {}
        pending = list(jobs)

        def run(batch, limit):
            data = "\n".join(json.dumps(j) for j in batch) + "\n"
            p = subprocess.Popen(["prlimit", "--as=%d" % (16 << 30), "--core=0", exe, str(timeout)], stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            try:
                out, _ = p.communicate(data, timeout=limit)
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
            got = {}
            for line in out.splitlines():
                try:
                    r = json.loads(line)
                    got[r["id"]] = r
                except (ValueError, KeyError, TypeError):
                    pass
            return got

        results = run(pending, 600)
        missing = [j for j in pending if j["id"] not in results]
        bad = 0
        for j in missing:
            if bad >= 5:
                break
            r = run([j], timeout + 5)
            if j["id"] in r:
                results[j["id"]] = r[j["id"]]
            else:
                bad += 1
                results[j["id"]] = {"id": j["id"], "status": "panic", "msg": "the process was killed or aborted"}
        return results

    # ---- TLC ------------------------------------------------------------------------------
    def tlc(self, module, cases, env=None, shards=CORES, invariant="Conforms", weight=None, timeout=800, view=None, simulate=None):
        """Checks every case (dicts with a unique string "id") with module; returns {id: [result, ...]}.
        Each case must produce at least one RESULT line, otherwise the check has not worked."""
        if not cases:
            return {}
        for c in cases:
            if not isinstance(c.get("id"), str):
                raise ToolError("case without id")
        shards = max(1, min(shards, (len(cases) + 3) // 4))
        weight = weight or (lambda c: 1)
        order = sorted(cases, key=weight, reverse=True)
        bins = [[] for _ in range(shards)]
        load = [0] * shards
        for c in order:
            i = load.index(min(load))
            bins[i].append(c)
            load[i] += weight(c)
        n = len(self.runs)
        cfg = os.path.join(SPEC, module + ".cfg")
        if not os.path.exists(cfg):
            raise ToolError("no " + cfg)

        def one(i):
            d = os.path.join(self.work, "tlc%d-%s-%d" % (n, module, i))
            os.makedirs(d)
            path = os.path.join(d, "cases.ndjson")
            with open(path, "w") as f:
                for c in bins[i]:
                    f.write(json.dumps(c) + "\n")
            e = dict(os.environ, CASES=path, **(env or {}))
            e.pop("JAVA_TOOL_OPTIONS", None)
            cmd = ["java", "-Djava.io.tmpdir=" + d, "-Xss256m", "-Xmx3g", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC",
                   "-workers", "1", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-continue",
                   "-deadlock", "-config", cfg, os.path.join(SPEC, module + ".tla")]
            out = os.path.join(d, "out.txt")
            with open(out, "w") as f:
                try:
                    rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=d).returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
            return rc, out

        t0 = time.time()
        with ThreadPoolExecutor(shards) as ex:
            outs = list(ex.map(one, range(shards)))
        results = {}
        st = tr = 0
        bad_exit = False
        failed = None
        for rc, out in outs:
            text = open(out, errors="replace").read()
            if rc == 12:
                bad_exit = True
            for m in re.finditer(r'^"RESULT (.*)"$', text, re.M):
                v = json.loads(json.loads('"' + m.group(1) + '"'))
                results.setdefault(v[0], []).append(v[1:] if len(v) > 2 else v[1])
            if rc not in (0, 12):
                failed = "TLC failed (%s) on %s, see %s:\n%s" % (rc, module, out, text[-3000:])
                continue
            ms = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
            if not ms:
                raise ToolError("no statistics in " + out)
            tr += int(ms[-1][0])
            st += int(ms[-1][1])
        if failed:
            raise ToolError(failed, results)
        missing = [c["id"] for c in cases if c["id"] not in results]
        if missing:
            raise ToolError("%d cases without a verdict from %s, e.g. %s" % (len(missing), module, missing[:3]))
        self.states += st
        self.transitions += tr
        self.runs.append(dict(module=module, cases=len(cases), states=st, generated=tr, wall_s=round(time.time() - t0, 1)))
        self.log("TLC %s: %d cases, %d states, %.1fs" % (module, len(cases), st, time.time() - t0))
        if bad_exit and not any(isinstance(v, list) and v and v[0] == "bad" for vs in results.values() for v in vs):
            raise ToolError("TLC reports a violation without a verdict (%s)" % module)
        return results

    def judge(self, module, cases, env=None, kind="", **kw):
        """tlc() with the usual verdicts ["ok", why] / ["bad", why, ...]"""
        by = {c["id"]: c for c in cases}
        try:
            res = self.tlc(module, cases, env, **kw)
        except ToolError as e:   # what has been decided stays decided
            for cid, vs in (e.args[1] if len(e.args) > 1 else {}).items():
                self.violations += [(cid, v, dict(module=module, env=env or {}, case=by[cid])) for v in vs if v[0] == "bad"]
            raise
        for cid, vs in res.items():
            self.evaluated += 1
            vs = [json.loads(x) for x in sorted(set(json.dumps(v) for v in vs))]
            for v in vs:
                if v[0] == "bad":
                    self.violations.append((cid, v, dict(module=module, env=env or {}, case=by[cid])))
                self.count(kind + " ".join(str(x) for x in v[:2]))
        return res

    # ---- the specification itself -------------------------------------------------------------
    def design(self):
        """model checks the specification modules this property rests on (independent of the code under test)"""
        for module in DESIGN.get(self.pid, []):
            d = os.path.join(self.work, "design-" + module)
            os.makedirs(d)
            t0 = time.time()
            cmd = ["java", "-Djava.io.tmpdir=" + d, "-Xss64m", "-Xmx8g", "-XX:+UseParallelGC", "-cp", JAR, "tlc2.TLC", "-workers", str(CORES), "-metadir", os.path.join(d, "meta"),
                   "-noGenerateSpecTE", "-config", os.path.join(SPEC, module + ".cfg"), os.path.join(SPEC, module + ".tla")]
            try:
                r = subprocess.run(cmd, capture_output=True, text=True, timeout=600, cwd=d)
            except subprocess.TimeoutExpired:
                raise ToolError("the specification's own model %s takes too long" % module)
            m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
            if r.returncode or not m:
                raise ToolError("the specification's own model %s fails:\n%s" % (module, r.stdout[-3000:]))
            self.runs.append(dict(module=module, cases=0, states=int(m[-1][1]), generated=int(m[-1][0]), wall_s=round(time.time() - t0, 1)))
            self.log("design model %s: %s states, %.1fs" % (module, m[-1][1], time.time() - t0))

    # ---- report -----------------------------------------------------------------------------
    def known(self):
        out = []
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", line.strip())
            if m and m.group(1) == self.pid:
                out.append((m.group(2), m.group(3)))
        return out

    def finish(self, level, rule, extra=None):
        if self.evaluated == 0 and not self.violations:
            raise ToolError("nothing was checked")
        if self.thorough:
            self.design()
        known = dict(self.known())
        new, listed = [], {}
        for v in self.violations:
            if v[0] in known:
                listed[v[0]] = v
            else:
                new.append(v)
        for k in listed:
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, known[k], k))
        coverage = dict(distinct_nontrivial=len(self.nontrivial), rule=rule,
                        samples=self.samples[:4], states=self.states, transitions=self.transitions,
                        traces_validated_against_impl=self.evaluated, verdicts=self.counts, tlc_runs=self.runs)
        coverage.update(extra or {})
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=coverage,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.start, 1), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.alarm():
            print("OK property=%s %d cases, %d states, %.0fs" % (self.pid, self.evaluated, self.states, time.time() - self.start))
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if new else 0

    def alarm(self):
        """reports the violations that are not listed; whether there are any"""
        known = dict(self.known())
        new = [v for v in self.violations if v[0] not in known]
        if not new:
            return False
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        cid, v, data = new[0]
        path = os.path.join(d, "%s.json" % self.pid)
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, case=cid, verdict=v, data=data, more=[[x[0], x[1]] for x in new[1:50]]), f, indent=1)
        for x in new[:5]:
            print("  %s: %s" % (x[0], json.dumps(x[1])[:400]))
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        return True

    def nt(self, *key):
        self.nontrivial.add(json.dumps(key))

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def write(self, name, text):
        p = os.path.join(self.work, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        return p


def cps(s):
    return [ord(c) for c in s]
