"""Common machinery of the checks: build drivers from /repo, run TLC, replay specification behaviours in the real code."""
import atexit, json, os, re, subprocess, sys, time, random, shutil, tempfile, hashlib
from collections import deque, defaultdict
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = os.cpu_count() or 8
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"


class CheckError(Exception):
    pass


def canon(x):
    """Canonical form of a JSON value: arrays are compared as multisets."""
    if isinstance(x, dict):
        return "{" + ",".join(json.dumps(k) + ":" + canon(x[k]) for k in sorted(x)) + "}"
    if isinstance(x, list):
        return "[" + ",".join(sorted(canon(y) for y in x)) + "]"
    return json.dumps(x)


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0          # behaviours (walks) replayed in the implementation
        self.steps = 0              # steps of those behaviours
        self.samples = []
        self.detail = {}
        self.assumptions = []
        self.violations = []
        self.known_hits = {}
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid.lower())
        atexit.register(shutil.rmtree, self.tmp, True)

    thorough = property(lambda self: self.tier == "thorough")

    # ---------------------------------------------------------------- build
    def build(self, *targets):
        env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
        t = time.time()
        if not os.path.exists(os.path.join(BUILD, "build.ninja")):
            shutil.rmtree(BUILD, ignore_errors=True)
            r = subprocess.run(["cmake", "-S", os.path.join(VERIF, "harness"), "-B", BUILD, "-G", "Ninja",
                                "-DREPO=" + REPO], env=env, capture_output=True, text=True)
            if r.returncode:
                raise CheckError("cmake failed:\n" + r.stdout[-3000:] + r.stderr[-3000:])
        r = subprocess.run(["ninja", "-C", BUILD] + list(targets), env=env, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("build failed:\n" + r.stdout[-6000:] + r.stderr[-2000:])
        self.detail["build_s"] = round(time.time() - t, 1)
        return [os.path.join(BUILD, "bin", x) for x in targets]

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, workers=None, args=(), env=None, timeout=800, heap="6g", props=()):
        """Runs TLC on spec/<module>.tla; returns (stdout lines). Raises CheckError unless TLC finished without error."""
        meta = tempfile.mkdtemp(dir=self.tmp)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-Dtlc2.TLC.stopAfter=%d" % timeout] + list(props) + [
            "-cp", TLA_JAR + ":" + os.path.join(os.path.dirname(TLA_JAR), "*"), "tlc2.TLC",
            "-metadir", meta, "-noGenerateSpecTE", "-nowarning",
            "-workers", str(workers or min(4, NPROC)), "-config", os.path.join(SPEC, cfg or module + ".cfg")]
        cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        out = os.path.join(meta, "out.txt")
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout + 30, cwd=meta)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on %s" % module)
        return r.returncode, out

    STATS = re.compile(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue")

    def tlc_ok(self, module, **kw):
        # TLC's workers share values that are brought into normal form in place; very rarely one of them sees a record half
        # done ("nonexistent field" of a record that has it).  An exception, as opposed to an error TLC has found in the
        # specification, is only believed of a single worker.
        for last in (False, True):
            rc, out = self.tlc(module, **kw)
            gen = dist = None
            tail = deque(maxlen=60)
            exception = False
            for line in open(out):
                m = self.STATS.match(line)
                if m:
                    gen, dist = int(m.group(1)), int(m.group(2))
                elif not line.startswith(('<<"S"', '<<"T"', '<<"C"', '"')):
                    tail.append(line)
                    exception = exception or "exception" in line.lower()
            if rc == 0:
                break
            if last or not exception or kw.get("workers") == 1:
                raise CheckError("TLC reports an error in the specification %s (rc %d):\n%s" % (module, rc, "".join(tail)))
            kw = dict(kw, workers=1)
        if gen is not None:
            self.transitions += gen
            self.states += dist
            self.detail.setdefault("tlc", []).append({"module": module, "cfg": kw.get("cfg") or module + ".cfg",
                                                      "states": dist, "transitions": gen})
        return out

    @staticmethod
    def emitted(out):
        """Yields (tag, [json strings]) for every PrintT(<<"tag", ToJson(x), ToJson(y)...>>) line."""
        for line in open(out):
            if line.startswith('<<"') and line.rstrip().endswith(">>"):
                v = json.loads("[" + line.strip()[2:-2] + "]")
                yield v[0], v[1:]

    def graph(self, module, **kw):
        """Model-checks <module> and returns its labelled state graph as emitted by Emit/EmitState."""
        out = self.tlc_ok(module, **kw)
        ids, obs, raw, edges, seen = {}, [], {}, [], set()
        acts, E, n = {}, defaultdict(list), 0
        init = None

        def key(r):
            k = raw.get(r)
            if k is None:
                k = raw[r] = canon(json.loads(r))
            return k
        cfg = {}
        for tag, o in self.emitted(out):
            if tag == "C":          # configuration for the driver
                cfg = json.loads(o[0])
            elif tag == "S":          # state, observation, is initial
                k = key(o[0])
                if k not in ids:
                    ids[k] = len(obs)
                    obs.append(json.loads(o[1]))
                    if o[2] == "true":
                        init = ids[k]
            elif tag == "T":        # state, action, next state
                edges.append(o)
        for s, a, t in edges:
            ks, kt = key(s), key(t)
            if kt not in ids:      # cut by a state constraint
                continue
            e = (ids[ks], a, ids[kt])
            if e in seen:
                continue
            seen.add(e)
            if a not in acts:
                acts[a] = json.loads(a)
            E[e[0]].append((acts[a], e[2]))
            n += 1
        if init is None:
            raise CheckError("no initial state emitted by " + module)
        return {"init": init, "obs": obs, "edges": E, "n": n, "cfg": cfg}

    def oracle(self, module, cmds, parts=6, **kw):
        """Runs the specification on a list of command records ({"op":"new"} starts a behaviour); returns per command
        {"a": action with result, "o": observation}."""
        starts = [i for i, c in enumerate(cmds) if c["op"] == "new"]
        parts = max(1, min(parts, len(starts)))
        cuts = [starts[len(starts) * k // parts] for k in range(parts)] + [len(cmds)]
        kw.setdefault("workers", 1)
        kw.setdefault("heap", "3g")
        if not kw.get("cfg") and not os.path.exists(os.path.join(SPEC, module + ".cfg")):
            raise CheckError("no cfg")

        def one(k):
            p = os.path.join(self.tmp, "%s-%d-%d.ndjson" % (module, os.getpid(), k + 1000 * len(self.detail.get("tlc", []))))
            part = cmds[cuts[k]:cuts[k + 1]]
            with open(p, "w") as f:
                for c in part:
                    f.write(json.dumps(c) + "\n")
            out = self.tlc_ok(module, env={"CMDS": p}, **kw)
            res = {}
            for tag, o in self.emitted(out):
                if tag == "T":      # line, action, observation
                    res[int(o[0])] = {"a": json.loads(o[1]), "o": json.loads(o[2])}
            if len(res) != len(part):
                raise CheckError("%s explained %d of %d commands; next is %s" % (
                    module, len(res), len(part), json.dumps(part[len(res)])[:800]))
            return [res[i + 1] for i in range(len(part))]
        with ThreadPoolExecutor(parts) as ex:
            return [r for rs in ex.map(one, range(parts)) for r in rs]

    # ---------------------------------------------------------------- walks
    def cover(self, g, maxlen=400, limit=None):
        """Walks of the graph that together take every transition."""
        E, init = g["edges"], g["init"]
        todo = {s: list(range(len(v))) for s, v in E.items()}
        for v in todo.values():
            self.rng.shuffle(v)
        # self loops (typically rejected calls and queries) first, so that they are checked in place
        for s, v in todo.items():
            v.sort(key=lambda i: E[s][i][1] != s, reverse=True)
        remaining = sum(len(v) for v in todo.values())
        walks = []
        while remaining:
            cur, walk = init, []
            while len(walk) < maxlen and remaining:
                if todo.get(cur):
                    i = todo[cur].pop()
                    remaining -= 1
                    a, t = E[cur][i]
                    walk.append((a, t))
                    cur = t
                    continue
                # nearest node with an uncovered edge
                prev, dq, goal = {cur: None}, deque([cur]), None
                while dq and goal is None:
                    u = dq.popleft()
                    for i, (a, t) in enumerate(E.get(u, ())):
                        if t not in prev:
                            prev[t] = (u, i)
                            if todo.get(t):
                                goal = t
                                break
                            dq.append(t)
                if goal is None:
                    break
                path = []
                while prev[goal] is not None:
                    u, i = prev[goal]
                    path.append(E[u][i])
                    goal = u
                path.reverse()
                if walk and len(walk) + len(path) > maxlen:
                    break
                for a, t in path:
                    walk.append((a, t))
                    cur = t
            if not walk:
                break
            walks.append(walk)
        return walks

    def walks_of_graph(self, g, cfg=None, **kw):
        """Walk list in driver form."""
        res = []
        for w in self.cover(g, **kw):
            res.append({"new": cfg or g["cfg"], "obs0": g["obs"][g["init"]],
                        "steps": [{"cmd": {k: v for k, v in a.items() if k != "res"}, "res": a.get("res"), "obs": g["obs"][t]}
                                  for a, t in w]})
        return res

    def walks_of_oracle(self, cmds, answers):
        """cmds: list whose elements {"op":"new", ...} start a behaviour."""
        res = []
        for c, a in zip(cmds, answers):
            if c["op"] == "new":
                res.append({"new": c, "obs0": a["o"], "steps": []})
            else:
                res[-1]["steps"].append({"cmd": c, "res": a["a"].get("res"), "obs": a["o"]})
        return res

    # ---------------------------------------------------------------- replay
    def replay(self, exe, walks, name="replay", shards=None, timeout=600, args=(), key=None, nontrivial=None):
        """Steps every walk through the real code; every result and every observation must be the specification's."""
        if not walks:
            raise CheckError("nothing to replay for " + name)
        shards = min(shards or NPROC, len(walks))
        parts = [walks[i::shards] for i in range(shards)]
        files = []
        for i, part in enumerate(parts):
            p = os.path.join(self.tmp, "%s.%d.ndjson" % (name, i))
            tab, obs = {}, []

            def oid(o):
                k = id(o)
                if k not in tab:
                    tab[k] = len(obs)
                    obs.append(o)
                return tab[k]
            lines = []
            for wi, w in enumerate(part):
                lines.append({"new": w["new"], "o": oid(w["obs0"]) if w.get("obs0") is not None else -1})
                for s in w["steps"]:
                    lines.append({"cmd": s["cmd"], "res": s["res"], "o": oid(s["obs"]) if s.get("obs") is not None else -1})
            with open(p, "w") as f:
                f.write(json.dumps({"obs": obs}) + "\n")
                for l in lines:
                    f.write(json.dumps(l) + "\n")
            files.append((p, part))

        def run(fp):
            p, part = fp
            try:
                r = subprocess.run([exe, p] + list(args), capture_output=True, text=True, timeout=timeout, errors="replace")
                return r.returncode, r.stdout, r.stderr, fp
            except subprocess.TimeoutExpired as e:
                return -99, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout", fp
        with ThreadPoolExecutor(shards) as ex:
            results = list(ex.map(run, files))
        nbad = 0
        for rc, so, se, (p, part) in results:
            done = False
            for line in so.splitlines():
                if line.startswith("MISMATCH ") or line.startswith("CRASH ") or line.startswith("HANG "):
                    kind, js = line.split(" ", 1)
                    try:
                        info = json.loads(js)
                    except ValueError:
                        info = {"line": int(re.search(r'"line":(\d+)', js).group(1)), "raw": js}
                    nbad += 1
                    self.report(kind, info, part, exe, name, key)
                elif line.startswith("DONE"):
                    done = True
            if not done and nbad == 0:
                raise CheckError("driver %s ended without a verdict (rc %s): %s %s" % (exe, rc, so[-2000:], se[-2000:]))
        self.validated += len(walks)
        n = sum(len(w["steps"]) for w in walks)
        self.steps += n
        self.detail.setdefault("replayed", []).append({"name": name, "behaviours": len(walks), "steps": n})
        w = walks[len(walks) // 2]
        self.sample({"behaviour": name, "new": w["new"], "steps": [{"cmd": s["cmd"], "res": s["res"]} for s in w["steps"][:6]]})
        return nbad == 0

    def report(self, kind, info, part, exe, name, key=None):
        """Turns driver line number into a behaviour prefix, and files the violation."""
        line = info["line"]
        n = 1
        prefix, walk = [], None
        for w in part:
            ln = n + 1
            if ln <= line <= ln + len(w["steps"]):
                walk = w
                prefix = w["steps"][:line - ln]
                break
            n = ln + len(w["steps"])
        rec = {"property": self.pid, "kind": kind, "driver": os.path.basename(exe), "set": name, "info": info,
               "new": walk["new"] if walk else None, "obs0": walk.get("obs0") if walk else None, "steps": prefix}
        self.violation(rec, key(rec) if key else None)

    def violation(self, rec, key=None):
        for k in load_known():
            if k["property"] == self.pid and k["status"] == "finding" and key is not None and k["key"] == key:
                self.known_hits[k["key"]] = k
                return
        self.violations.append(rec)

    def sample(self, s):
        if len(self.samples) < 6:
            t = json.dumps(s)
            self.samples.append(s if len(t) < 6000 else t[:6000])

    # ---------------------------------------------------------------- finish
    def finish(self, coverage=None, require=()):
        for k in load_known():
            if k["property"] == self.pid and k["status"] == "finding":
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
               "impl_steps_compared": self.steps, "samples": self.samples or ["none"]}
        cov.update(self.detail)
        cov.update(coverage or {})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if self.violations:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            for i, v in enumerate(self.violations[:5]):
                p = os.path.join(d, "%s-%d.json" % (self.pid, i))
                with open(p, "w") as f:
                    json.dump(v, f, indent=1)
                print("violation of %s: %s" % (self.pid, json.dumps(v.get("info") or v.get("text"))[:600]))
                if v.get("steps"):
                    print("  last command: %s" % json.dumps(v["steps"][-1]["cmd"])[:600])
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            rc = 1
        else:
            print("OK property=%s tier=%s states=%d transitions=%d behaviours=%d steps=%d wall=%.1fs" % (
                self.pid, self.tier, self.states, self.transitions, self.validated, self.steps, time.time() - self.t0))
        shutil.rmtree(self.tmp, ignore_errors=True)
        return rc


KNOWN = os.path.join(VERIF, "known_findings.txt")


def load_known():
    """Lines: 'finding: property=<id> key=<key> <text>' and 'fixed: property=<id> <commit> <text>'."""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", line)
            if m:
                res.append({"status": "finding", "property": m.group(1), "key": m.group(2), "text": m.group(3)})
    return res
