"""Shared machinery of the checks: TLC runs, state graphs, path covers, the driver, evidence."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def build():
    target = os.environ.get("VERIF_TARGET", os.path.join(BUILD, "target"))
    p = subprocess.run(["bash", os.path.join(ROOT, "harness", "build.sh")], capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError("driver build failed:\n" + p.stderr[-6000:])
    return os.path.join(target, "debug", "driver")


class Tlc:
    """Result of one TLC run."""

    def __init__(self, ok, states, distinct, emitted, out, violated):
        self.ok, self.states, self.distinct, self.emitted, self.out, self.violated = \
            ok, states, distinct, emitted, out, violated


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{prop}-{seed}")
        self.dir = os.path.join(BUILD, "run", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = 0
        self.samples, self.explanations, self.assumptions = [], [], []
        self.violations, self.known = [], []
        self.extra = {}
        self.n = 0
        self.known_ids = self._load_known()
        self.known_hit = set()
        self.driver_bin = None

    thorough = property(lambda self: self.tier == "thorough")

    # ---------------------------------------------------------------- known findings
    def _load_known(self):
        out = {}
        p = os.path.join(ROOT, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
                if m and m.group(1) == self.prop:
                    out[m.group(2)] = m.group(3).strip()
        return out

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, workers=8, extra_files=None, args=(), timeout=600, env=None, heap="8g",
            check=True):
        """Runs TLC on spec/<module>.tla with spec/<cfg>; returns the emitted JSON records."""
        self.n += 1
        d = os.path.join(self.dir, f"tlc{self.n}")
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for name, text in (extra_files or {}).items():
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", "-Dfile.encoding=UTF-8",
               f"-Djava.io.tmpdir={d}", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
               "-config", cfg, *args, f"{module}.tla"]
        out = os.path.join(d, "out.txt")
        t = time.time()
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout,
                                   env={**os.environ, **(env or {})})
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC timed out on {module}/{cfg} after {timeout}s")
        emitted, other = [], []
        with open(out, encoding="utf-8") as f:
            for line in f:
                if line.startswith('"@'):
                    emitted.append(json.loads(json.loads(line)[1:]))
                else:
                    other.append(line)
        text = "".join(other)
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", text)
        states, distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        violated = re.findall(r"(?:Invariant|property|Action property) (\S+) (?:is|was) violated|Temporal properties were violated", text)
        ok = p.returncode == 0
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        if check and not ok:
            raise ToolError(f"TLC failed on {module}/{cfg} (rc {p.returncode}):\n" + text[-5000:])
        self.states += distinct
        self.transitions += states
        self.explanations.append(f"TLC {module}/{cfg}: {states} states generated, {distinct} distinct, "
                                 f"{len(emitted)} records, {time.time()-t:.1f}s")
        return Tlc(ok, states, distinct, emitted, text, violated)

    # ---------------------------------------------------------------- driver
    def drive(self, suite, cases, threads=8, limit=60, timeout=800):
        if self.driver_bin is None:
            self.driver_bin = build()
        self.n += 1
        i, o = (os.path.join(self.dir, f"{suite}{self.n}.{x}.json") for x in ("in", "out"))
        with open(i, "w") as f:
            json.dump(cases, f)
        t = time.time()
        try:
            p = subprocess.run([self.driver_bin, suite, i, o, str(threads)], capture_output=True, text=True,
                               timeout=timeout, cwd=self.dir,
                               env={**os.environ, "VERIF_CASE_LIMIT": str(limit)})
        except subprocess.TimeoutExpired:
            raise ToolError(f"driver {suite} timed out")
        if p.returncode != 0:
            # the process died (abort, stack overflow): find the case, which is an outcome of the code under test
            return self._bisect(suite, cases, p, threads, limit)
        res = json.load(open(o))
        os.unlink(i)
        os.unlink(o)
        self.explanations.append(f"driver {suite}: {len(cases)} cases, {time.time()-t:.1f}s")
        return res

    def _bisect(self, suite, cases, p, threads, limit):
        if p.returncode == 2 or (p.returncode > 0 and p.returncode != 101 and "unknown suite" in p.stderr):
            raise ToolError(f"driver {suite} failed rc={p.returncode}: {p.stderr[-3000:]}")
        if len(cases) == 1:
            return [{"crash": p.returncode, "stderr": p.stderr[-500:]}]
        h = len(cases) // 2
        return self.drive(suite, cases[:h], threads, limit) + self.drive(suite, cases[h:], threads, limit)

    # ---------------------------------------------------------------- verdicts
    def violation(self, what, data, finding=None):
        """Records a disagreement. `finding` names it for the known-findings file."""
        if finding is not None and finding in self.known_ids:
            self.known_hit.add(finding)
            return
        if len(self.violations) < 20:
            p = os.path.join(self.dir, f"violation{len(self.violations)}.json")
            with open(p, "w") as f:
                json.dump(dict(property=self.prop, what=what, finding=finding, data=data), f, indent=1, default=str)
            self.violations.append((what, p, finding))

    def sample(self, x):
        if len(self.samples) < 5:
            s = json.dumps(x, ensure_ascii=False)
            self.samples.append(x if len(s) < 3000 else s[:3000])

    # ---------------------------------------------------------------- functional suites
    def functional(self, suite, records, to_case, judge, threads=8, limit=60):
        """records: emitted [{in, out}] ; to_case(record) -> driver case ; judge(record, observation) ->
        None or (what, finding-id or None)."""
        if not records:
            raise ToolError(f"no cases for {suite}")
        cases = [to_case(r) for r in records]
        obs = self.drive(suite, cases, threads=threads, limit=limit)
        bad = 0
        for r, c, o in zip(records, cases, obs):
            v = judge(r, o)
            if v is not None:
                bad += 1
                what, finding = v if isinstance(v, tuple) else (v, None)
                self.violation(what, dict(record=r, case=c, observed=o), finding)
        self.traces += len(cases)
        if records:
            for k in (0, len(records) // 2, len(records) - 1):
                self.sample(dict(suite=suite, record=records[k], observed=obs[k]))
        return obs


class Graph:
    """State graph emitted by TLC: records {s, a, t} where a carries the action and its observation."""

    def __init__(self, emitted, obs_fields=("obs",)):
        self.out = {}
        self.init = []
        self.edges = 0
        seen = set()
        for r in emitted:
            if "init" in r:
                k = key(r["init"])
                if k not in self.init:
                    self.init.append(k)
                self.out.setdefault(k, [])
                continue
            s, t = key(r["s"]), key(r["t"])
            a = {k: v for k, v in r["a"].items() if k not in obs_fields}
            o = {k: v for k, v in r["a"].items() if k in obs_fields}
            e = (s, key(a), key(o), t)
            if e in seen:
                continue
            seen.add(e)
            self.out.setdefault(s, []).append((key(a), key(o), t))
            self.out.setdefault(t, [])
            self.edges += 1
        if not self.init:
            targets = {t for es in self.out.values() for _, _, t in es}
            self.init = [s for s in self.out if s not in targets]
        for es in self.out.values():
            es.sort()

    def cover(self, rng, maxlen=60):
        """Action paths from initial states that together take every edge: [(init, [action..], [(obs..)..])]."""
        from collections import deque
        uncovered = {(s, i) for s, es in self.out.items() for i in range(len(es))}
        # parents by BFS from the initial states
        dist = {}
        q = deque()
        for s in self.init:
            dist[s] = None
            q.append(s)
        while q:
            s = q.popleft()
            for i, (_, _, t) in enumerate(self.out[s]):
                if t not in dist:
                    dist[t] = (s, i)
                    q.append(t)
        paths = []
        order = sorted(uncovered)
        rng.shuffle(order)
        # deepest first, so that long paths cover the short ones on the way
        def depth(s):
            d = 0
            while dist[s] is not None:
                s = dist[s][0]
                d += 1
            return d
        dcache = {s: depth(s) for s in dist}
        order.sort(key=lambda e: -dcache.get(e[0], 0))
        for s0, i0 in order:
            if (s0, i0) not in uncovered or s0 not in dist:
                continue
            pre = []
            s = s0
            while dist[s] is not None:
                pre.append(dist[s])
                s = dist[s][0]
            pre.reverse()
            path = pre + [(s0, i0)]
            cur = self.out[s0][i0][2]
            for e in path:
                uncovered.discard(e)
            # extend greedily through uncovered edges
            while len(path) < maxlen:
                nxt = [i for i in range(len(self.out[cur])) if (cur, i) in uncovered]
                if not nxt:
                    break
                i = nxt[0]
                path.append((cur, i))
                uncovered.discard((cur, i))
                cur = self.out[cur][i][2]
            paths.append((s, path))
        return paths

    def walks(self, rng, n, length):
        """Seeded random walks through the graph."""
        out = []
        for _ in range(n):
            s = s0 = rng.choice(self.init)
            path = []
            for _ in range(length):
                if not self.out[s]:
                    break
                i = rng.randrange(len(self.out[s]))
                path.append((s, i))
                s = self.out[s][i][2]
            out.append((s0, path))
        return out

    def actions(self, path):
        return [json.loads(self.out[s][i][0]) for s, i in path]

    def check(self, s0, acts, observed):
        """Is the observed behaviour one of the graph's? Returns None or the index of the first step no state admits,
        with the observations that were admissible. Stops (accepting) when the planned action is not enabled any more,
        which can only happen after a nondeterministic step took another branch."""
        states = {s0}
        for n, (a, o) in enumerate(zip(acts, observed)):
            ka, ko = key(a), key(o)
            allowed = [(so, t) for s in states for (sa, so, t) in self.out[s] if sa == ka]
            if not allowed:
                return None
            nxt = {t for so, t in allowed if so == ko}
            if not nxt:
                return n, sorted({so for so, _ in allowed})
            states = nxt
        if len(observed) < len(acts):
            return len(observed), ["(nothing observed)"]
        return None

    def replay(self, ctx, suite, paths, to_case, get_obs, threads=8, limit=60):
        cases = [to_case(json.loads(s0), self.actions(p)) for s0, p in paths]
        obs = ctx.drive(suite, cases, threads=threads, limit=limit)
        for (s0, p), c, o in zip(paths, cases, obs):
            acts = self.actions(p)
            if isinstance(o, dict) and ("panic" in o or "hang" in o or "crash" in o):
                ctx.violation(f"{suite}: the code {o}", dict(case=c, observed=o))
                continue
            observed = get_obs(o)
            bad = self.check(s0, acts, observed)
            if bad is not None:
                n, allowed = bad
                ctx.violation(
                    f"{suite}: step {n} {acts[n]} gave {observed[n] if n < len(observed) else None}, specification allows {allowed[:5]}",
                    dict(init=json.loads(s0), steps=acts[:n + 1], observed=observed[:n + 1], allowed=allowed, case=c))
        ctx.traces += len(cases)
        for k in (0, len(paths) // 2):
            if k < len(paths):
                ctx.sample(dict(suite=suite, steps=self.actions(paths[k][1])[:30], observed=get_obs(obs[k])[:30] if isinstance(obs[k], list) else obs[k]))
        return obs


def key(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))
