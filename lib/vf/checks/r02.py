"""R02: the job monitor retries exactly the failed jobs and reports exactly the failures.

Jobs.tla is the run of a list of jobs with retries; TLC checks its properties (termination included) and prints every
complete behaviour, each of which is replayed: the worker fails when the behaviour says so, the map function runs the jobs
of a round in the order of the behaviour, and calls, elements and the returned failures have to be those specified."""
import contextlib
import io
import random
import threading
import warnings
from multiprocessing.pool import ThreadPool

import numpy as np

from .. import core


class Job:
    """an element that cannot be told from the others by value"""

    def __init__(self, j):
        self.j = j

    def __eq__(self, other):
        return isinstance(other, Job)

    __hash__ = None


def elements(kind, n, rng):
    """elements, iterator over them, and the job number of an element"""
    if kind == "strings":
        e = [f"job {j}" for j in range(n)]
    elif kind == "shuffled ints":
        e = list(range(n))
        rng.shuffle(e)
    elif kind == "large ints":
        e = [10 + 3 * j for j in range(n)]
    elif kind == "tuples":
        e = [(j, "x") for j in range(n)]
    elif kind == "lists":
        e = [[j] for j in range(n)]
    elif kind == "range":
        e = range(n)
    elif kind == "alike":
        e = [Job(j) for j in range(n)]
    else:
        e = {f"k{j}": j for j in range(n)}
    lst = list(e)

    def number(x):
        if kind == "alike":
            return x.j if isinstance(x, Job) else None
        hits = [j for j, y in enumerate(lst) if isinstance(x, (int, np.integer)) == isinstance(y, int) and not isinstance(x, np.ndarray) and x == y]
        return hits[0] if len(hits) == 1 else None
    it = iter(lst) if kind == "iterator" else (y for y in lst) if kind == "generator" else e
    return it, number


KINDS = ["strings", "shuffled ints", "large ints", "tuples", "lists", "range", "alike", "dict", "iterator", "generator"]
CODES = [1, 2, -1, 255, True]
MAPS = ["map", "ordered", "ordered", "thread map", "thread imap"]


def play(rec, seed):
    """one behaviour; returns None or (clause, text)"""
    from hera_pspec import utils
    rng = random.Random(seed)
    n, most = rec["n"], rec["max"]
    kind, how = rng.choice(KINDS), rng.choice(MAPS)
    it, number = elements(kind, n, rng)
    plan = {(c[0] - 1, c[1]): c[2] for c in rec["calls"]}
    order = {}
    for j, r, _ in rec["calls"]:
        order.setdefault(r, []).append(j - 1)
    made, tries, lock = [], {}, threading.Lock()

    def worker(x):
        j = number(x)
        with lock:
            r = tries[j] = tries.get(j, 0) + 1
            made.append((j, r, x))
        if plan.get((j, r), False):
            return rng.choice(CODES)
        return 0
    rounds = [0]

    def ordered(f, xs):
        xs = list(xs)
        rounds[0] += 1
        js = order.get(rounds[0], [])
        todo = sorted(range(len(xs)), key=lambda i: js.index(number(xs[i])) if number(xs[i]) in js else 99)
        out = [None] * len(xs)
        for i in todo:
            out[i] = f(xs[i])
        return out
    pool = None
    if how.startswith("thread"):
        pool = ThreadPool(3)
    M = {"map": map, "ordered": ordered, "thread map": getattr(pool, "map", None), "thread imap": getattr(pool, "imap", None)}[how]
    args = dict(M=M, verbose=rng.random() < 0.5)
    if most != 1 or rng.random() < 0.5:
        args["maxiter"] = most
    if rng.random() < 0.3:
        args["lf"] = io.StringIO()
    what = f"{n} jobs ({kind}), at most {most} tries, {how}, calls {rec['calls']}: "
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                res = ("failures", [int(x) for x in utils.job_monitor(worker, it, "job", **args)])
            except ValueError:
                res = ("raised",)
    finally:
        if pool:
            pool.terminate()
    if any(j is None for j, _, _ in made):
        return "element", what + f"the worker was called with {[x for j, _, x in made if j is None][:3]!r}, not an element of the jobs"
    if how == "ordered" and [(j + 1, r) for j, r, _ in made] != [(c[0], c[1]) for c in rec["calls"]] or \
            sorted((j + 1, r) for j, r, _ in made) != sorted((c[0], c[1]) for c in rec["calls"]):
        return "calls", what + f"made {[(j + 1, r) for j, r, _ in made]}"
    want = ("raised",) if rec["result"][0] == "raised" else ("failures", sorted(x - 1 for x in rec["result"][1]))
    if (res[0], sorted(res[1])) != want if len(res) == 2 else res != want:
        return "result", what + f"returned {res}, specified {want}"
    return None


def work(item):
    seed, recs = item
    viol, counts = [], {}
    for i, rec in enumerate(recs):
        v = play(rec, seed * 100003 + i)
        counts[rec["result"][0]] = counts.get(rec["result"][0], 0) + 1
        counts["calls"] = counts.get("calls", 0) + len(rec["calls"])
        if v and len(viol) < 5:
            viol.append(dict(clause=v[0], detail=v[1], key=v[0], replay=rec))
    return dict(violations=viol, counts=counts, samples=[])


def run(chk):
    import hera_pspec  # noqa: F401
    sizes = [(0, 2), (1, 1), (1, 3), (2, 3), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2)] + ([(2, 6), (3, 4), (4, 3)] if chk.thorough else [])
    recs = []
    for n, m in sizes:
        r = core.run_tlc("Jobs", "Jobs.cfg", dict(N=str(n), MaxTry=str(m), Emit="TRUE"), workers=4, heap="8g", timeout=3000)
        chk.add_tlc(r, f"Jobs-{n}-{m}")
        recs += r.records
    recs.sort(key=lambda r: (len(r["calls"]), str(r)))
    chk.sample(recs[-1])
    rng = random.Random(chk.seed)
    rng.shuffle(recs)
    for res in core.pmap(work, [(chk.seed * 50 + i, c) for i, c in enumerate(core.chunks(recs, 16))]):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(recs))
