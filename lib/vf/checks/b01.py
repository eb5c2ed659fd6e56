"""B01: batched merging of per-baseline files equals combining them all at once.

Behaviours of Batch.tla write small container files (one baseline-pair each; or one polarization, one window), put other
spectra into the output file, remove files, and merge what matches a pattern in batches, with extra header attributes,
also the output of earlier merges.  The specification says which merges are refused and what every file holds
afterwards, cell by cell; here all files are read back after every step and compared with it in everything."""
import contextlib
import hashlib
import io
import os
import pickle
import random
import shutil
import tempfile
import warnings
from pathlib import Path

import h5py
import numpy as np

from .. import core

PATTERNS = {"aux": ["aux.*.h5", "aux*"], "all": ["*.h5"], "blp": ["blp.*.h5", "b*"], "zero": ["blp.0*.h5", "blp.0?.h5"],
            "one": ["blp.1*.h5", "blp.1[01].h5"], "first": ["*.01.h5"], "set": ["*[2x].h5"],
            "digits": ["blp.[01][0-9].h5", "blp.??.h5"], "outs": ["*.pspec.h5"], "none": ["nothing.*.h5", "blp.1.h5"]}
OUT = {"out.v1.pspec.h5": "out.v1", "sum.pspec.h5": "sum"}


def digest(p):
    with open(p, "rb") as fh:
        return hashlib.md5(fh.read()).hexdigest()


class Replay:
    def __init__(self, seed):
        from hera_pspec import cli, container
        from .. import uvp
        self.cli, self.C, self.U = cli, container, uvp
        self.rng = random.Random(seed)
        self.viol, self.counts = [], {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def bad(self, clause, text, trace):
        if len(self.viol) < 10:
            self.viol.append(dict(clause=clause, detail=text[:1800], replay=[{k: v for k, v in a.items() if k not in ("disk",)}
                                                                             for a in trace[-8:]], key=clause))

    # ------------------------------------------------------------------ objects
    def obj(self, o):
        cells = [tuple(c) for c in o["cells"]]
        src = {tuple(c[:4]): c[4] for c in cells}
        rows = sorted({c[1:3] for c in cells})
        spws = [s for s in (0, 4, 1, 2, 3) if s in {c[0] for c in cells}]
        rowlist = list(rows)
        random.Random(str(cells)).shuffle(rowlist)
        static = o["static"]
        if static == 10 and not o["beam"]:
            static = 0
        return self.U.Obj(spws, rows, sorted({c[3] for c in cells}), src=lambda *k: src[k], stats=tuple(sorted(o["stats"])),
                          cov=o["cov"], win={"no": None}.get(o["win"], o["win"]), beam=o["beam"], rowlist=rowlist, folded=o["folded"],
                          static=static)

    def extra(self, no, e):
        if e == "one":
            return [no, no + 1, no + 2]
        return ["string %d" % no, no * 0.5, no][no % 3]

    def same_extra(self, got, no, e):
        return np.array_equal(np.asarray(got), np.asarray(self.extra(no, e)))

    def write(self, path, f):
        if os.path.exists(path):
            os.remove(path)
        psc = self.C.PSpecContainer(path, "rw", keep_open=False)
        for g, n, o in f["ents"]:
            psc.set_pspec(g, n, self.U.build(self.obj(o), history="of %d" % f["no"]))
        if f["attrs"]:
            with h5py.File(path, "a") as fh:
                for e in f["attrs"]:
                    fh["header"].attrs[e] = self.extra(f["no"], e)

    # ------------------------------------------------------------------ steps
    def put(self, a):
        f = [f for f in a["disk"] if f["path"] == a["args"]["path"]][0]
        self.write(os.path.join(self.dir, f["path"]), f)
        return True

    def beside(self, a):
        path = os.path.join(self.dir, a["args"]["path"])
        new = [f for f in a["disk"] if f["path"] == a["args"]["path"]][0]
        old = [f for f in self.before if f["path"] == a["args"]["path"]]
        known = old[0]["ents"] if old else []
        psc = self.C.PSpecContainer(path, "rw", keep_open=False)
        for e in new["ents"]:
            if e not in known:
                psc.set_pspec(e[0], e[1], self.U.build(self.obj(e[2])), overwrite=True)
        return True

    def drop(self, a):
        os.remove(os.path.join(self.dir, a["args"]["path"]))
        return True

    def merge(self, a):
        m = a["args"]
        self.count("merges")
        kw = dict(pattern=os.path.join(self.dir, self.rng.choice(PATTERNS[m["pat"]])), group=m["group"], names=sorted(m["names"]),
                  outpath=Path(os.path.join(self.dir, OUT[m["out"]])), progress=self.rng.random() < 0.3,
                  extras=sorted(m["extras"]) or self.rng.choice([None, []]), batch_size=m["size"] or None)
        self.rng.shuffle(kw["names"])
        if self.rng.random() < 0.3:
            return self.command(kw)
        try:
            self.cli.fast_merge_baselines(**kw)
        except Exception as exc:
            self.error = f"{type(exc).__name__}: {exc}"
            return False
        return True

    def command(self, kw):
        from typer.testing import CliRunner
        args = ["fast-merge-baselines", "--pattern", kw["pattern"], "--group", kw["group"], "--outpath", str(kw["outpath"])]
        for n in kw["names"]:
            args += ["--names", n]
        for e in kw["extras"] or []:
            args += ["--extras", e]
        if kw["batch_size"]:
            args += ["--batch-size", str(kw["batch_size"])]
        if not kw["progress"]:
            args += ["--no-progress"]
        r = CliRunner().invoke(self.cli.app, args=args)
        self.error = repr(r.exception)
        return r.exit_code == 0

    # ------------------------------------------------------------------ comparison
    def compare(self, a):
        """all files, and all entries of the files that changed"""
        want = {f["path"]: f for f in a["disk"]}
        got = {f for f in os.listdir(self.dir) if f.endswith(".h5")}
        stray = got - set(want)
        for p in stray:   # a refused merge may leave an empty output file
            if p in OUT and a["op"] == "merge" and not a["ok"]:
                if self.C.PSpecContainer(os.path.join(self.dir, p), "r", keep_open=False).tree(return_str=False):
                    return "refused", f"{p} was written by a refused merge"
                os.remove(os.path.join(self.dir, p))
            else:
                return "files", f"unexpected file {p}"
        if set(want) - got:
            return "files", f"lost {sorted(set(want) - got)}"
        old = {f["path"]: f for f in self.before}
        for p, f in want.items():
            path = os.path.join(self.dir, p)
            d = digest(path)
            target = a["args"].get("path", a["args"].get("out")) == p
            if self.digests.get(p) == d:
                if target and old.get(p) != f and a["op"] != "put":
                    return "result", f"{p} was not changed"
                continue
            self.digests[p] = d
            if not target:
                return "input", f"{p} was changed"
            tree = self.C.PSpecContainer(path, "r", keep_open=False).tree(return_str=False)
            names = sorted((g, n) for g in tree for n in tree[g])
            if names != sorted((g, n) for g, n, o in f["ents"]):
                return "entries", f"{p} has {names}, expected {sorted((g, n) for g, n, o in f['ents'])}"
            for g, n, o in f["ents"]:
                self.count("entries compared")
                u = self.C.PSpecContainer(path, "r", keep_open=False).get_pspec(g, n)
                b = self.U.diff(u, self.obj(o), label=f"{p}: {g}/{n}")
                if b:
                    new = a["op"] == "merge" and g == a["args"]["group"] and n in a["args"]["names"]
                    return (b[0][0] if new else "bystander"), f"{b[:3]}"
        self.digests = {p: d for p, d in self.digests.items() if p in want}
        side = {}
        for out, e, v in a["side"]:
            side[OUT[out] + "." + e + ".pkl"] = (e, v)
        have = {f for f in os.listdir(self.dir) if f.endswith(".pkl")}
        if have != set(side):
            return "extras", f"files {sorted(have)}, expected {sorted(side)}"
        for f, (e, v) in side.items():
            with open(os.path.join(self.dir, f), "rb") as fh:
                x = pickle.load(fh)
            keys = {self.ints(k): y for k, y in x.items()}
            if set(keys) != {self.U.BLP[b] for b, n in v} or len(keys) != len(x):
                return "extras", f"{f} is of {sorted(map(str, x))}, expected {[self.U.BLP[b] for b, n in v]}"
            for b, n in v:
                if not self.same_extra(keys[self.U.BLP[b]], n, e):
                    return "extras", f"{f}: {keys[self.U.BLP[b]]} for {self.U.BLP[b]}, expected {self.extra(n, e)}"
        left = {f for f in os.listdir(self.dir)} - got - have
        if left:
            return "files", f"left behind {sorted(left)}"
        return None

    def ints(self, k):
        return tuple(tuple(int(z) for z in y) for y in k) if isinstance(k, (tuple, list)) else k

    # ------------------------------------------------------------------ behaviours
    def one(self, trace):
        self.dir = tempfile.mkdtemp(prefix="b01_")
        self.before, self.digests = [], {}
        try:
            for i, a in enumerate(trace):
                self.error = None
                ok = getattr(self, a["op"])(a)
                if ok != a["ok"]:
                    return self.bad("outcome", f"merge {a['args']} " + ("accepted" if ok else f"refused: {self.error}"), trace[:i + 1])
                if a["op"] == "merge":
                    self.count("merged" if ok else "refused")
                b = self.compare(a)
                if b:
                    return self.bad(b[0], f"{a['op']} {a['args']}: {b[1]}", trace[:i + 1])
                self.before = a["disk"]
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, traces):
        for t in traces:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.one(t)
            if len(self.viol) >= 5:
                break


def work(item):
    seed, traces = item
    r = Replay(seed)
    r.run(traces)
    return dict(violations=r.viol, counts=r.counts, samples=[])


def run(chk):
    from hera_pspec import cli  # noqa: F401
    from .. import uvp  # noqa: F401
    traces = core.simulate_traces(chk, "Batch", {}, 1500 if chk.thorough else 120, 16)
    chk.sample(traces[0][:3])
    for res in core.pmap(work, [(chk.seed * 50 + i, c) for i, c in enumerate(core.chunks(traces, 48 if chk.thorough else 16))]):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
