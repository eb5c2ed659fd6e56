"""Common machinery of every check: running TLC on a specification, collecting the behaviours it
generates, comparing the real code with them, reporting and writing evidence."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPECS = os.path.join(VERIF, "specs")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """Something is wrong with the checking machinery itself (never with the code under test)."""


# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self):
        self.records = []
        self.states = 0
        self.distinct = 0
        self.transitions = 0
        self.depth = 0
        self.out = ""
        self.coverage = {}


def run_tlc(module, cfg, consts=None, simulate=None, depth=None, seed=1, workers=1, timeout=600,
            heap="4g", extra_files=None, keep=None, coverage=False):
    """Run TLC on specs/<module>.tla.

    cfg: name of a file in specs/ or literal text of a configuration.
    consts: mapping NAME -> TLA+ text appended to the configuration as `NAME = text`
            (through a generated module when it is not a plain model value).
    Records printed by the specification as PrintT("@@" \\o ToJson(..)) are returned parsed.
    """
    work = tempfile.mkdtemp(prefix="vf_tlc_")
    try:
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, f), work)
        for name, text in (extra_files or {}).items():
            with open(os.path.join(work, name), "w") as fh:
                fh.write(text)
        if os.path.exists(os.path.join(SPECS, cfg)):
            with open(os.path.join(SPECS, cfg)) as fh:
                cfgtext = fh.read()
        else:
            cfgtext = cfg
        main = module
        if consts:
            main = "MC_" + module
            body = [f"---- MODULE {main} ----", f"EXTENDS {module}"]
            lines = []
            for k, v in consts.items():
                body.append(f"const_{k} == {v}")
                lines.append(f"CONSTANT {k} <- const_{k}")
            body.append("====")
            with open(os.path.join(work, main + ".tla"), "w") as fh:
                fh.write("\n".join(body) + "\n")
            cfgtext = cfgtext + "\n" + "\n".join(lines) + "\n"
        with open(os.path.join(work, "run.cfg"), "w") as fh:
            fh.write(cfgtext)
        cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={work}", "-cp", JAVA_CP, "tlc2.TLC",
               "-config", "run.cfg", "-workers", str(workers), "-metadir", os.path.join(work, "meta"),
               "-noGenerateSpecTE", "-seed", str(seed)]
        if simulate is not None:
            cmd += ["-simulate", f"num={simulate}"]
            if depth:
                cmd += ["-depth", str(depth)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += [main]
        res = TlcResult()
        outf = os.path.join(work, "out.txt")
        with open(outf, "w") as fh:
            try:
                rc = subprocess.run(cmd, cwd=work, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise MachineryError(f"TLC timed out on {module} after {timeout}s")
        rest = []
        with open(outf, errors="replace") as fh:
            for line in fh:
                if line.startswith('"@@'):
                    res.records.append(json.loads(json.loads(line)[2:]))
                else:
                    rest.append(line)
        res.out = "".join(rest)
        m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", res.out)
        if m:
            res.states = int(m.group(2).replace(",", ""))
            res.distinct = res.states
            res.transitions = int(m.group(1).replace(",", ""))
        m = re.search(r"The number of states generated: (\d[\d,]*)", res.out)
        if m:
            res.transitions = int(m.group(1).replace(",", ""))
            res.states = res.transitions
        m = re.search(r"depth of the complete state graph search is (\d+)", res.out)
        if m:
            res.depth = int(m.group(1))
        if rc != 0:
            if keep:
                shutil.copy(outf, keep)
            raise MachineryError(f"TLC failed on {module} (rc={rc}):\n" + res.out[-4000:])
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


def simulate_traces(chk, module, consts, num, depth, procs=4, name=None, timeout=400, cfg=None):
    """Random behaviours of a specification that prints [n |-> step, act |-> last] in every state.

    Returns a list of behaviours, each the list of the `last` records after the initial state."""
    from concurrent.futures import ThreadPoolExecutor

    consts = dict(dict(Random="TRUE", MaxStep=str(depth), Emit="TRUE"), **consts)
    with ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(lambda i: run_tlc(module, cfg or module + ".cfg", consts, simulate=-(-num // procs), depth=depth + 1,
                                           seed=chk.seed * 1000 + i, timeout=timeout), range(procs)))
    out = []
    for k, r in enumerate(rs):
        chk.add_tlc(r, f"{name or module}-simulation-{k}")
        for x in r.records:
            if x["n"] == 0:
                continue
            if x["n"] == 1:
                out.append([])
            out[-1].append(x["act"])
    return out


# ------------------------------------------------------------------ behaviours from a state graph
def sid(state):
    return hashlib.md5(json.dumps(state, sort_keys=True).encode()).hexdigest()


def graph_walks(records, init_states, rng, max_len=60, limit=None):
    """Turn emitted transitions [f,a,t] into walks from initial states covering every transition.

    Returns a list of walks; a walk is a list of (action, state_after), preceded by its initial state."""
    edges = {}
    states = {}
    seen = set()
    for r in records:
        f, t = sid(r["f"]), sid(r["t"])
        key = (f, json.dumps(r["a"], sort_keys=True), t)
        if key in seen:
            continue
        seen.add(key)
        states[f] = r["f"]
        states[t] = r["t"]
        edges.setdefault(f, []).append((r["a"], t))
    inits = [sid(s) for s in init_states]
    for s in init_states:
        states[sid(s)] = s
    # BFS tree for shortest paths from the initial states
    par = {i: None for i in inits}
    order = list(inits)
    for u in order:
        for n, (a, v) in enumerate(edges.get(u, [])):
            if v not in par:
                par[v] = (u, n)
                order.append(v)

    def path(u):
        p = []
        while par[u] is not None:
            q, n = par[u]
            p.append((q, n))
            u = q
        return u, list(reversed(p))

    todo = {u: list(range(len(es))) for u, es in edges.items() if u in par}
    for u in todo:
        rng.shuffle(todo[u])
    pending = [u for u in order if todo.get(u)]
    walks = []
    total = 0
    while pending:
        u = pending[-1]
        if not todo.get(u):
            pending.pop()
            continue
        start, p = path(u)
        walk = [(edges[q][n][0], states[edges[q][n][1]]) for q, n in p]
        cur = u
        while len(walk) < max_len:
            if todo.get(cur):
                n = todo[cur].pop()
            else:
                # look one step ahead for an uncovered edge
                nxt = [k for k, (a, v) in enumerate(edges.get(cur, [])) if todo.get(v)]
                if not nxt:
                    break
                n = rng.choice(nxt)
            a, v = edges[cur][n]
            walk.append((a, states[v]))
            cur = v
        walks.append((states[start], walk))
        total += len(walk)
        if limit and total >= limit:
            break
    return walks, dict(states=len(par), transitions=len(seen), steps=total)


# ------------------------------------------------------------------ reporting
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed)
        self.level = level
        self.t0 = time.time()
        self.viol = []
        self.keys = set()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.known = load_known(pid)
        self.known_hit = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add_tlc(self, res, name):
        self.cov["states"] += max(res.distinct, res.states)
        self.cov["transitions"] += res.transitions
        self.cov.setdefault("models", {})[name] = dict(states=max(res.distinct, res.states), transitions=res.transitions,
                                                       emitted=len(res.records))

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def traces(self, n=1):
        self.cov["traces_validated_against_impl"] += n

    def sample(self, s):
        if len(self.cov["samples"]) < 5:
            self.cov["samples"].append(s)

    def violation(self, clause, detail, replay=None, key=None):
        """Record that the real code contradicts the specification. `key` identifies the failing case."""
        key = key or clause
        for k in self.known:
            if k == key:
                self.known_hit[k] = detail
                return
        if len(self.viol) < 50:
            self.viol.append(dict(clause=clause, detail=str(detail)[:2000], replay=replay, key=key))
        self.keys.add(key)

    def merge(self, violations, counts=None, samples=None):
        for v in violations:
            self.violation(v["clause"], v["detail"], v.get("replay"), v.get("key"))
        for k, n in (counts or {}).items():
            self.count(k, n)
        for s in samples or []:
            self.sample(s)

    def finish(self):
        wall = round(time.time() - self.t0, 2)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=wall, violations=len(self.viol))
        if not self.cov["samples"]:
            self.cov["samples"] = ["no sample recorded"]
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        for k, d in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {k}: {str(d)[:300]}")
        print(f"{self.pid} [{self.tier}] states={self.cov['states']} transitions={self.cov['transitions']} "
              f"traces={self.cov['traces_validated_against_impl']} violations={len(self.viol)} wall={wall}s")
        if self.viol:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{self.pid}.json")
            with open(path, "w") as fh:
                json.dump(self.viol, fh, indent=1, default=str)
            for v in self.viol[:10]:
                print(f"  clause={v['clause']} key={v['key']} :: {v['detail'][:600]}")
            print(f"VIOLATION property={self.pid} replay={path}")
            sys.stdout.flush()
            return 1
        return 0


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+)", line)
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


# ------------------------------------------------------------------ parallel replay
def _pool_entry(args):
    func, item = args
    try:
        return func(item)
    except BaseException as exc:  # never lose a worker: the real code failed in an unforeseen way
        return dict(violations=[dict(clause="unexpected-exception", key="exception:" + type(exc).__name__,
                                     detail="".join(traceback.format_exception(exc))[-1800:],
                                     replay=repr(item)[:2000])], counts={}, samples=[])


def pmap(func, items, procs=8):
    """Run func over items in forked worker processes (the code under test is already imported)."""
    import multiprocessing as mp

    items = list(items)
    if not items:
        return []
    if procs == 1 or len(items) == 1:
        return [_pool_entry((func, i)) for i in items]
    ctx = mp.get_context("fork")
    with ctx.Pool(min(procs, len(items)), maxtasksperchild=None) as pool:
        return pool.map(_pool_entry, [(func, i) for i in items], chunksize=1)


def chunks(seq, n):
    k = max(1, (len(seq) + n - 1) // n)
    return [seq[i:i + k] for i in range(0, len(seq), k)]
