"""C01: PSpecContainer against specs/Container.tla.

TLC enumerates the complete state graph of the container (file present or not, held handle, content) with the
outcome every operation must have; every transition is then executed on real HDF5 files and the content seen
through the public API is compared with the specification's state after each step."""
import copy
import os
import random
import tempfile
import shutil
import io
import contextlib

import numpy as np

from .. import core


def payloads():
    from .. import uvp
    P = {}
    # the two versions differ in every respect: windows, rows, pols, optional arrays
    P[1] = uvp.build(uvp.Obj([4], [(0, 0), (1, 1)], [0], src=1, stats=("err",), cov=True, beam=True), history="first", cosmo=2)
    P[2] = uvp.build(uvp.Obj([1, 4], [(2, 1)], [0], src=2, win="plain"), history="second")
    bad = []
    u = copy.deepcopy(P[1]); del u.data_array; bad.append(u)
    u = copy.deepcopy(P[1]); u.data_array = {0: np.ones((2, 4, 1))}; bad.append(u)          # wrong type
    u = copy.deepcopy(P[1]); u.spw_array = np.array([3], dtype=np.uint16); bad.append(u)    # inconsistent windows
    u = copy.deepcopy(P[1]); u.stats_array = {"err": {}}; bad.append(u)                     # incomplete statistics
    u = copy.deepcopy(P[1]); del u.blpair_array; bad.append(u)
    junk = ["a string", np.arange(3), None, {"data_array": 1}]
    return P, bad, junk


# names an execution may use for the specification's groups and spectra (never the reserved "header")
GROUPS = ["g", "h", "g_h", "header2", "a header", "Header", "head", "2458042", "pspec", "g.1", "dset0", "pspec_type"]
NAMES = ["a", "a_1", "a_1_2", "a_x_b", "a_x_b_1", "b_x_a", "x", "header", "data_spw0", "pspec_type", "\u03a9 k", 3, 30,
         "history", "g", "dset0_x_dset1", "dset0_x_dset1_xx"]

META_SKIP = ("data_array", "wgt_array", "integration_array", "nsample_array", "stats_array", "cov_array_real",
             "cov_array_imag", "window_function_array", "window_function_kperp", "window_function_kpara")


class Replayer:
    def __init__(self, seed):
        from hera_pspec import container
        from .. import uvp
        self.C, self.uvp = container, uvp
        self.P, self.bad, self.junk = payloads()
        self.rng = random.Random(seed)
        self.viol, self.counts = [], {"operations replayed": 0, "projections compared": 0}

    def rename(self, state):
        """choose real names for the specification's names: any distinct names must do"""
        gs, ns = list(state["s"]), sorted({n for d in state["s"].values() for n in d})
        self.gmap = dict(zip(gs, self.rng.sample(GROUPS, len(gs))), header="header")
        self.nmap = dict(zip(ns, self.rng.sample(NAMES, len(ns))))

    def name(self, n):
        return self.nmap[n]

    def back(self, names):
        inv = {str(v): k for k, v in self.nmap.items()}
        return [inv.get(str(n), "?" + str(n)) for n in names]

    def gback(self, groups):
        inv = {v: k for k, v in self.gmap.items()}
        return [inv.get(g, "?" + g) for g in groups]

    def pay(self, p):
        if p == -1:
            return self.rng.choice(self.bad)
        if p == -2:
            return self.rng.choice(self.junk)
        return self.P[p]

    def version(self, u, meta=False):
        for v, o in self.P.items():
            if not self.uvp.delta(u, o, ignore=META_SKIP if meta else ()):
                if meta and any(hasattr(u, k) for k in META_SKIP):
                    return "has-data"
                return v
        return "unknown:" + ",".join(self.uvp.delta(u, self.P[1])[:4])

    def handle(self, h):
        if h == "K":
            return self.K
        if self.keep and h in self.kept:
            return self.kept[h]
        H = self.kept[h] = self.C.PSpecContainer(self.path, mode="rw" if h == "T" else "r", keep_open=False, tsleep=0, maxiter=0)
        return H

    def project(self, state, full=True):
        """content seen through a fresh read-only handle, against the specification's store"""
        want = {(self.gmap[g], str(self.nmap[n])): v for g, d in state["s"].items() for n, v in d.items() if v}
        if not state["e"]:
            return None if not os.path.exists(self.path) else "the file exists"
        R = self.C.PSpecContainer(self.path, mode="r", keep_open=False, tsleep=0, maxiter=0)
        tree = R.tree(return_str=False)
        got = sorted((g, n) for g, l in tree.items() for n in l)
        if got != sorted(want) or sorted(tree) != sorted(set(g for g, n in want)):
            return f"listing {tree}, expected {sorted(want)}"
        for (g, n), v in want.items():
            if not full and self.rng.random() > 0.15:
                continue
            x = self.version(R.get_pspec(g, n))
            if x != v:
                return f"{g}/{n} holds version {x}, expected {v}"
        self.counts["projections compared"] += 1
        return None

    def step(self, a):
        """execute one action; returns (ok, value)"""
        op = a["op"]
        if op == "open":
            self.K = self.C.PSpecContainer(self.path, mode=a["m"], keep_open=True, tsleep=0, maxiter=0)
            return None
        if op == "close":
            self.K.data.close()
            self.K = None
            return None
        H = self.handle(a["h"])
        if "g" in a:
            a = dict(a, g=self.gmap[a["g"]])
        if op == "set":
            H.set_pspec(a["g"], self.name(a["n"]), self.pay(a["p"]), overwrite=a["ow"])
        elif op == "setlist":
            H.set_pspec(a["g"], [self.name(i["n"]) for i in a["items"]], [self.pay(i["p"]) for i in a["items"]],
                        overwrite=a["ow"])
        elif op == "badcall":
            g = self.gmap[next(iter(self.gmap))]
            if a["kind"] == "len":
                H.set_pspec(g, ["a", "b"], [self.P[1]])
            elif a["kind"] == "nolist":
                if self.rng.random() < 0.5:
                    H.set_pspec(g, "a", [self.P[1]])
                else:
                    H.set_pspec(g, ["a"], self.P[1])
            else:
                H.set_pspec(self.rng.choice([[g], (g, "h"), {g: 1}]), "a", self.P[1], overwrite=True)
        elif op == "get":
            return self.version(H.get_pspec(a["g"], self.name(a["n"]), just_meta=a["meta"]), a["meta"])
        elif op == "getall":
            return sorted(self.version(x) for x in H.get_pspec(a["g"]))
        elif op == "spectra":
            return sorted(self.back(H.spectra(a["g"])))
        elif op == "groups":
            return sorted(self.gback(H.groups()))
        elif op == "tree":
            t = H.tree(return_str=False)
            s = "".join("(%s)\n" % g + "".join("  |--%s\n" % n for n in t[g]) for g in t)
            if H.tree() != s:
                return "text tree %r differs from %r" % (H.tree(), s)
            return sorted([x, n] for g, x in zip(t, self.gback(t)) for n in self.back(t[g]))
        elif op == "save":
            H.save()
        return None

    def want(self, a):
        op = a["op"]
        if op == "get":
            return a["v"]
        if op == "getall":
            return sorted(x[1] for x in a["v"])
        if op in ("spectra", "groups"):
            return sorted(a["v"])
        if op == "tree":
            return sorted([list(x) for x in a["v"]])
        return None

    def walk(self, init, steps):
        d = tempfile.mkdtemp(prefix="c01_")
        self.path, self.K = os.path.join(d, "c.h5"), None
        # the transactional handles are one object throughout, or a new one for each operation
        self.keep, self.kept = self.rng.random() < 0.5, {}
        self.rename(init)
        done = []
        try:
            for a, post in steps:
                done.append(a)
                self.counts["operations replayed"] += 1
                err = val = None
                try:
                    val = self.step(a)
                except Exception as exc:
                    err = exc
                if a["ok"] != (err is None):
                    self.fail("outcome-" + a["op"], done, f"{'refused' if err else 'accepted'} "
                              f"({type(err).__name__}: {err})" if err else "accepted, must be refused")
                    return
                if a["ok"] and val != self.want(a):
                    self.fail("value-" + a["op"], done, f"returned {val}, expected {self.want(a)}")
                    return
                try:
                    msg = self.project(post, full=op_writes(a))
                except Exception as exc:
                    msg = f"container unreadable: {type(exc).__name__}: {exc}"
                if msg:
                    self.fail("content-after-" + a["op"] + ("" if a["ok"] else "-refused"), done, msg)
                    return
            # durability: everything closed, a new process-independent handle reads the same content
            if self.K is not None:
                self.K.data.close()
                self.K = None
            msg = self.project(steps[-1][1]) if steps else None
            if msg:
                self.fail("durability", done, msg)
        finally:
            if self.K is not None:
                self.K.data.close()
            shutil.rmtree(d, ignore_errors=True)

    def fail(self, clause, done, msg):
        self.viol.append(dict(clause=clause, key=clause, detail=f"{msg} | history: {done[-6:]}",
                              replay=dict(names=[self.gmap, self.nmap], one_object=self.keep, history=done)))


def op_writes(a):
    return a["op"] in ("set", "setlist") and a["h"] != "R" and a.get("p") != -2


def work(item):
    seed, walks = item
    rep = Replayer(seed)
    with contextlib.redirect_stdout(io.StringIO()):
        for init, steps in walks:
            rep.walk(init, steps)
            if len(rep.viol) >= 5:
                break
    return dict(violations=rep.viol, counts=rep.counts, samples=[[a for a, _ in walks[0][1][:6]]] if walks else [])


def run(chk):
    import hera_pspec  # noqa: F401  (import once, before forking)
    from .. import uvp  # noqa: F401
    confs = [("two-groups", '{"g","h"}', '{"a","a_1"}')]
    if chk.thorough:
        confs.append(("three-names", '{"g"}', '{"a","a_1","3"}'))
        confs.append(("header", '{"g","h"}', '{"a","3"}'))
    else:
        confs.append(("digits", '{"g"}', '{"a","3"}'))
    for name, groups, names in confs:
        r = core.run_tlc("Container", "Container.cfg",
                         dict(Groups=groups, Names=names, Vers="{1,2}", Emit="TRUE"), heap="6g")
        chk.add_tlc(r, name)
        recs = r.records
        if not chk.thorough:
            # every transition that is not a list store; one in fifteen of those
            recs = [x for x in recs if x["a"]["op"] != "setlist" or chk.rng.random() < 0.1]
            if name == "two-groups":
                recs = [x for x in recs if x["a"]["op"] in ("open", "close") or chk.rng.random() < 0.2]
        init = dict(e=False, h="none", s={g: {n: 0 for n in eval_set(names)} for g in eval_set(groups)})
        walks, info = core.graph_walks(recs, [init], chk.rng, max_len=60)
        chk.cov.setdefault("replay", {})[name] = dict(info, walks=len(walks))
        chk.rng.shuffle(walks)
        items = [(chk.seed * 1000 + i, c) for i, c in enumerate(core.chunks(walks, 32))]
        for res in core.pmap(work, items):
            chk.merge(res["violations"], res["counts"], res["samples"])
        chk.traces(len(walks))
    chk.assumptions += ["names without '/'", "one process; HDF5 library itself trusted; no crash in the middle of a write"]


def eval_set(text):
    return [x.strip().strip('"') for x in text.strip("{}").split(",")]
