"""D01: the answers of a data set depend only on its present data and settings.

Behaviours of Dataset.tla are replayed on a PSpecData object.  The specification keeps no cache: after every call it says
which settings and user-supplied matrices are in force, and an answer of the object has to equal the answer of an object
built afresh from copies of its present data with exactly these.  DatasetCache.tla is the design of the caches: model
checked, with every invalidation shown to be needed."""
import copy
import contextlib
import io
import random
import warnings

import numpy as np

from .. import core

BL = [(0, 1), (1, 2)]
POL = ["xx", "yy"]
DROPS = ["win", "ext", "sym", "rp", "setC-inverse", "setC-R", "setiC-R", "clear-R", "data"]


def key(k):
    k -= 1
    return k // 2 % 2, BL[k % 2], POL[k // 4]


def nan_eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind not in "fciub" or b.dtype.kind not in "fciub":
        return a.tolist() == b.tolist()
    s = np.nanmax(np.abs(b)) if b.size and np.isfinite(b).any() else 0.0
    return np.allclose(a, b, rtol=1e-7, atol=1e-10 * (s if np.isfinite(s) else 0.0), equal_nan=True)


def same(a, b):
    if isinstance(a, Exception) or isinstance(b, Exception):
        return type(a) is type(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    return nan_eq(a, b)


def show(a):
    if isinstance(a, Exception):
        return f"{type(a).__name__}: {a}"[:150]
    if isinstance(a, (list, tuple)):
        return str([show(x) for x in a])[:300]
    a = np.asarray(a)
    return f"shape {a.shape} {a.ravel()[:3]}"


class Replay:
    def __init__(self, seed):
        import hera_pspec as hp
        from .. import uvd
        self.V, self.hp = uvd, hp
        self.seed = seed
        self.viol, self.counts = [], {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ------------------------------------------------------------------ building
    def data(self, i, kind="data"):
        rng, V = self.rng, self.V
        sd = rng.randrange(10**6)
        args = dict(bls=BL, pols=self.pols[i % 2], ntimes=5, nfreq=12, t0=float(i % 2), autos=(0, 1, 2), seed=sd,
                    order=self.order)
        if kind == "wgts":
            return V.build(binary=True, **args)
        if kind == "std":
            u = V.build(**args)
            u.data_array[:] = 1 + np.abs(u.data_array.real)
            return u
        pat = np.random.default_rng(sd)
        style = pat.integers(0, 4)
        chans = {(bl, p): pat.random(12) < 0.2 for bl in BL for p in POL}
        tms = {(bl, p): pat.random(5) < 0.25 for bl in BL for p in POL}

        def flags(bl, p, t, n):
            f = np.zeros(n, bool)
            if (bl, p) not in chans:
                return f
            if style in (1, 3):
                f |= chans[bl, p]
            if style in (2, 3) and tms[bl, p][t]:
                f[:] = True
            if style == 3 and pat.random() < 0.3:
                f[pat.integers(0, n)] = True
            return f
        u = V.build(flags=flags, **args)
        if rng.random() < 0.3:  # data without any variation in time
            u.nsample_array[:] = 2.0
        return u

    def begin(self, seed):
        self.rng = random.Random(seed)
        self.order = self.rng.choice([None, "bl"])
        self.pols = [POL, self.rng.choice([POL, POL[::-1]])]
        self.beam = self.rng.choice([None, None, "gauss", "response"])
        self.bm = self.V.beam(self.beam) if self.beam else None
        self.std = self.rng.random() < 0.5
        self.wg = [self.rng.random() < 0.3 for _ in range(2)]
        self.parts = []
        ds = self.hp.PSpecData(beam=self.bm)
        lst = []
        for i in range(2):
            lst.append((self.data(i), self.data(i, "wgts") if self.wg[i] else None, self.data(i, "std") if self.std else None))
        how = self.rng.randrange(3)
        d, w, sd = (list(x) for x in zip(*lst))
        labs = ["one", "two"]
        if how == 0:
            ds = self.hp.PSpecData(dsets=d, wgts=w, dsets_std=sd, labels=labs, beam=self.bm)
        elif how == 1:
            ds = self.hp.PSpecData(dsets=dict(zip(labs, d)), wgts=dict(zip(labs[::-1], w[::-1])),
                                   dsets_std=dict(zip(labs[::-1], sd[::-1])) if self.std else None, beam=self.bm)
        else:
            for i in range(2):
                ds.add(d[i], w[i], labels=labs[i], dsets_std=sd[i])
        self.ds = ds
        self.parts = [dict(label=labs[i], d=d[i], w=w[i], s=sd[i]) for i in range(2)]
        self.mats = {}

    def mat(self, m, k, n, sq=None):
        """user matrix number m of key k"""
        sq = sq or n
        g = np.random.default_rng(100 * m + k)
        a = g.normal(size=(n, sq)) + 1j * g.normal(size=(n, sq))
        return a @ a.conj().T + n * np.eye(n) if n == sq else a

    def par(self, p):
        return dict(filter_centers=[0.0], filter_half_widths=[[100e-9, 300e-9, 600e-9][p - 1]], filter_factors=[[1e-3, 1e-2, 1e-4][p - 1]])

    def ckey(self, k):
        d, bl, p = key(k)
        return ((d, d), (bl + (p,),) * 2, "empirical", None, False, True)

    def dims(self, s):
        n = s["win"][1] - s["win"][0]
        return n, n + sum(s["ext"])

    def rkey(self, k, s, wt, taper):
        d, bl, p = key(k)
        r = (d, bl + (p,), wt, taper)
        if wt == "dayenu":
            r += tuple(s["ext"]) + (s["win"][1] - s["win"][0], s["sym"])
        return r

    def fresh(self, j):
        """an object built from copies of the present data, with the settings the specification declares"""
        s = j["s"]
        cp = {}

        def c(u):
            if u is None:
                return None
            if id(u) not in cp:
                cp[id(u)] = copy.deepcopy(u)
            return cp[id(u)]
        f = self.hp.PSpecData(dsets=[c(x["d"]) for x in self.parts], wgts=[c(x["w"]) for x in self.parts],
                              dsets_std=[c(x["s"]) for x in self.parts] if all(x["s"] is not None for x in self.parts) else None,
                              labels=[x["label"] for x in self.parts], beam=self.bm)
        for i, x in enumerate(self.parts):
            f.dsets_std[i] = c(x["s"])
        n, m = self.dims(s)
        f.set_spw(tuple(s["win"]), ndlys=s["nd"])
        f.set_symmetric_taper(s["sym"])
        f.set_filter_extension(tuple(s["ext"]))
        f.set_taper(s["taper"])
        f.set_weighting("dayenu")
        for k, p in enumerate(j["rpar"]):
            if p:
                d, bl, pol = key(k + 1)
                f.set_r_param((d, bl, pol), self.par(p))
        f.set_weighting(s["wt"])
        cs = {self.ckey(k + 1): self.mat(v, k + 1, m) for k, v in enumerate(j["um"]["c"]) if v}
        if cs:
            f.set_C(cs)
        ics = {self.ckey(k + 1): self.mat(v, 20 + k + 1, m) for k, v in enumerate(j["um"]["ic"]) if v}
        if ics:
            f.set_iC(ics)
        for k, wt, tp, mm in j["um"]["r"]:
            f.set_R({self.rkey(k, s, wt, tp): self.mat(mm, 40 + k, n, m)})
        return f

    # ------------------------------------------------------------------ queries
    def ask(self, o, kind, j, seed):
        """one answer of object o"""
        rng = random.Random(seed)
        s = j["s"]
        k = rng.choice([1, 1, 1, 2, 5])
        d1, d2 = (rng.choice([0, "one"]), rng.choice([1, "two"]))
        if rng.random() < 0.3:
            d1, d2 = d2, d1
        if rng.random() < 0.2:
            d2 = d1
        _, bl, p = key(k)
        b2 = rng.choice([BL[0], BL[0], BL[1]])
        k1, k2 = (d1, bl, p), (d2, b2, p)
        n, m = self.dims(s)
        ex = rng.random() < 0.3
        t = rng.randrange(0, 4)
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                if kind in ("x", "w", "dx"):
                    return getattr(o, kind)(k1, include_extension=ex)
                if kind == "C":
                    return o.C_model(k1, include_extension=ex)
                if kind in ("Cauto", "Cdsets"):
                    return o.C_model(k1, model={"Cauto": "autos", "Cdsets": "dsets"}[kind], time_index=t)
                if kind == "X":
                    return o.cross_covar_model(k1, k2, conj_1=ex, conj_2=not ex)
                if kind in ("iC", "I", "Y", "R"):
                    return getattr(o, kind)(k1)
                if kind == "q":
                    return o.q_hat(k1, k2)
                if kind == "qfft":
                    return o.q_hat(k1, k2, allow_fft=True)
                if kind == "qlist":
                    return o.q_hat([(d1, b, p) for b in BL], [(d2, b, p) for b in BL])
                if kind == "qexact":
                    return o.q_hat(k1, k2, exact_norm=True, pol=p)
                if kind in ("G", "Hexact"):
                    return (o.get_G if kind == "G" else o.get_H)(k1, k2, exact_norm=kind == "Hexact" or ex, pol=p)
                if kind in ("H", "Hs"):
                    return o.get_H(k1, k2, sampling=kind == "Hs")
                if kind == "E":
                    return o.get_unnormed_E(k1, k2, exact_norm=ex, pol=p)
                if kind == "V":
                    return o.get_unnormed_V(k1, k2, exact_norm=ex, pol=p)
                if kind == "covq":
                    return o.cov_q_hat(k1, k2, model=rng.choice(["empirical", "dsets"]), time_indices=t)
                if kind == "MW":
                    return o.get_MW(o.get_G(k1, k2), o.get_H(k1, k2), mode=rng.choice(["I", "H^-1"]))
                if kind == "delays":
                    return o.delays()
                if kind == "scalar":
                    return o.scalar((p, p), num_steps=60, exact_norm=ex)
                if kind == "sda":
                    return o.scalar_delay_adjustment(k1, k2)
                if kind == "units":
                    return o.units()
                if kind == "Qalt":
                    return o.get_Q_alt(s["nd"] - 1, allow_fft=ex, include_extension=rng.random() < 0.5)
                if kind == "Qten":
                    return o.get_Q_alt_tensor(allow_fft=ex, include_extension=rng.random() < 0.5)
                if kind == "beam":
                    return o.get_integral_beam(p)
                if kind == "acov":
                    return o.get_analytic_covariance(k1, k2, np.eye(s["nd"]) * 1.5, model=rng.choice(["empirical", "autos", "dsets",
                                                     "foreground_dependent"]))
            except (ValueError, AssertionError, AttributeError, KeyError, IndexError, TypeError, NotImplementedError,
                    np.linalg.LinAlgError) as exc:
                return exc
        raise KeyError(kind)

    def pspec(self, o, a):
        rp = None
        if a["wt"] == "dayenu":
            rp = {(d,) + bl + ("xx",): self.par(a["p"]) for d in (0, 1) for bl in BL}
        rng = random.Random(a["seed"])
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                u = o.pspec(BL, BL, (0, 1), [("xx", "xx")], spw_ranges=[tuple(w) for w in a["windows"]], taper=a["taper"],
                            input_data_weight=a["wt"], symmetric_taper=a["sym"], verbose=False, r_params=rp,
                            filter_extensions=[tuple(a["ext"])] * len(a["windows"]), allow_fft=rng.random() < 0.3,
                            store_cov=rng.random() < 0.3, norm=rng.choice(["I", "I", "H^-1", "V^-1/2"]),
                            n_dlys=[a["nd"] or None] * len(a["windows"]))
            except (ValueError, AssertionError, NotImplementedError, np.linalg.LinAlgError) as exc:
                return exc, None
        out = []
        for i in range(len(a["windows"])):
            out += [u.data_array[i], u.wgt_array[i], u.integration_array[i], u.window_function_array[i]]
            if hasattr(u, "cov_array_real"):
                out += [u.cov_array_real[i], u.cov_array_imag[i]]
        out += [u.time_1_array, u.time_2_array, u.lst_1_array, u.blpair_array, u.dly_array, u.scalar_array]
        return out, u

    # ------------------------------------------------------------------ steps
    def bad(self, clause, text, trace):
        if len(self.viol) < 20:
            self.viol.append(dict(clause=clause, detail=text, replay=[a["op"] + str(a["args"]) for a in trace], key=clause))

    def settings(self, j):
        o, s = self.ds, j["s"]
        got = dict(spw=tuple(int(x) for x in o.get_spw()), nd=len(o.delays()), taper=o.taper, wt=o.data_weighting,
                   sym=bool(o.symmetric_taper), ext=tuple(int(x) for x in o.filter_extension), labels=list(o.labels))
        want = dict(spw=(s["win"][0] - s["ext"][0], s["win"][1] + s["ext"][1]), nd=s["nd"], taper=s["taper"], wt=s["wt"],
                    sym=s["sym"], ext=tuple(s["ext"]), labels=[x["label"] for x in self.parts])
        return {k: (got[k], want[k]) for k in want if got[k] != want[k]}

    def matched(self):
        """data, weights, deviations and labels still belong together"""
        o = self.ds
        for i, x in enumerate(self.parts):
            for who in (i, x["label"]):
                k = (who, BL[1], "yy")
                sp = slice(*o.get_spw())
                if not np.array_equal(o.x(k), x["d"].get_data(BL[1] + ("yy",)).T[sp]):
                    return f"data of {x['label']!r} are not those added under this label"
                w = x["w"].get_data(BL[1] + ("yy",)).T[sp] if x["w"] is not None else \
                    (~x["d"].get_flags(BL[1] + ("yy",))).T[sp].astype(float)
                if not np.array_equal(o.w(k), w):
                    return f"weights of {x['label']!r} are not those added with its data"
                if x["s"] is not None and not np.array_equal(o.dx(k), x["s"].get_data(BL[1] + ("yy",)).T[sp]):
                    return f"deviations of {x['label']!r} are not those added with its data"
        return None

    def objs(self):
        return [self.V.state(u) for x in self.parts for u in (x["d"], x["w"], x["s"]) if u is not None]

    def step(self, j, done):
        o, op, a = self.ds, j["op"], j["args"]
        self.count(op)
        before = self.objs() if op not in ("broadcast", "Jy_to_mK", "trim", "rephase", "add") else None
        err = None
        buf = io.StringIO()
        pend = None
        if op == "query":
            pend = []
            f = None
            # the object is asked first: a question the fresh object could not answer identically is a violation
            for n, kind in enumerate(sorted(a["kinds"])):
                sd = f"{self.tseed}/{a['seed']}/{kind}"
                pend.append((kind, sd, copy.deepcopy(self.ask(o, kind, j, sd))))
            f = self.fresh(j)
            for kind, sd, got in pend:
                want = self.ask(f, kind, j, sd)
                self.count("answers")
                self.count("refused answers" if isinstance(want, Exception) else "values")
                if not same(got, want):
                    self.bad("stale-" + kind, f"settings {j['s']}: answer {show(got)}, a fresh data set answers {show(want)}", done)
                    return False
        elif op == "pspec":
            prev = done[-2] if len(done) > 1 else None
            f = self.fresh(prev if prev else dict(j, s=dict(win=[0, 12], nd=12, taper="none", wt="identity", ext=[0, 0], sym=True),
                                                  rpar=[0] * 8, um=dict(c=[0] * 8, ic=[0] * 8, r=[])))
            got, _ = self.pspec(o, a)
            want, _ = self.pspec(f, a)
            self.count("refused run: " + repr(want)[:60] if isinstance(want, Exception) else "runs")
            if not same(got, want):
                self.bad("stale-pspec", f"request {a}: {show(got)}, a fresh data set gives {show(want)}", done)
                return False
            if isinstance(got, Exception):
                return False  # what a failed run leaves behind is not specified: end of this behaviour
        else:
            with contextlib.redirect_stdout(buf), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    self.call(o, op, a, j)
                except (ValueError, AssertionError) as exc:
                    err = exc
            if (err is None) != j["ok"]:
                self.bad("refusal", f"{op} {a}: {'accepted' if err is None else repr(err)}", done)
                return False
        diff = self.settings(j)
        if diff:
            self.bad("settings", f"after {op} {a}: (found, specified) {diff}", done)
            return False
        if before is not None and before != self.objs():
            self.bad("data-changed", f"{op} {a} changed the data", done)
            return False
        if op not in ("query", "pspec"):
            t = self.matched()
            if t:
                self.bad("matched", f"after {op} {a}: {t}", done)
                return False
        return True

    def call(self, o, op, a, j):
        if op == "set_spw":
            o.set_spw(tuple(a["win"]), ndlys=a["nd"] or None)
        elif op == "set_Ndlys":
            o.set_Ndlys(a["nd"] or None)
        elif op == "set_taper":
            o.set_taper(a["taper"])
        elif op == "set_weighting":
            o.set_weighting(a["wt"])
        elif op == "set_symmetric_taper":
            o.set_symmetric_taper(a["sym"])
        elif op == "set_filter_extension":
            o.set_filter_extension(tuple(a["ext"]))
        elif op == "set_r_param":
            d, bl, p = key(a["k"])
            o.set_r_param((d, bl, p), self.par(a["p"]))
        elif op in ("set_C", "set_iC", "set_R"):
            s = j["s"]
            n, m = self.dims(s)
            if op == "set_R":
                o.set_R({self.rkey(a["k"], s, s["wt"], s["taper"]): self.mat(a["m"], 40 + a["k"], n, m)})
            else:
                getattr(o, op)({self.ckey(a["k"]): self.mat(a["m"], a["k"] + (20 if op == "set_iC" else 0), m)})
        elif op == "clear_cache":
            o.clear_cache(*([[self.ckey(k) for k in a["keys"]]] if a["keys"] else []))
        elif op == "broadcast":
            o.broadcast_dset_flags(spw_ranges=[tuple(w) for w in a["windows"]] or None, time_thresh=a["thresh"] / 100,
                                   unflag=a["unflag"])
        elif op == "Jy_to_mK":
            o.Jy_to_mK(beam=self.V.beam("gauss"))
        elif op == "trim":
            o.trim_dset_lsts()
        elif op == "rephase":
            new = o.rephase_to_dset(a["i"], inplace=a["inplace"])
            if a["inplace"]:
                assert new is None or new is o.dsets
        elif op == "add":
            i = len(self.parts)
            x = dict(d=self.data(i), w=self.data(i, "wgts") if a["wgts"] else None, s=self.data(i, "std") if a["std"] else None)
            lab = {"none": None, "new": f"extra{i}", "dup": self.parts[0]["label"]}[a["label"]]
            if a["dict"] and lab:
                o.add({lab: x["d"]}, {lab: x["w"]}, dsets_std={lab: x["s"]})
            else:
                o.add([x["d"]], [x["w"]], labels=[lab] if lab else None, dsets_std=[x["s"]])
            used = [y["label"] for y in self.parts]
            got = o.labels[i] if len(o.labels) == i + 1 else None
            if lab == "new" or (a["label"] == "new" and got != lab) or got in used or got is None:
                raise ValueError(f"labels {o.labels}")
            x["label"] = got
            self.parts.append(x)
        else:
            raise KeyError(op)

    def run(self, traces):
        for n, tr in enumerate(traces):
            self.tseed = self.seed * 1009 + n
            self.begin(self.tseed)
            done = []
            for j in tr:
                done.append(j)
                if not self.step(j, done):
                    break
        return dict(violations=self.viol, counts=self.counts,
                    samples=[[a["op"] for a in tr] for tr in traces[:1]])


def work(item):
    seed, traces = item
    with contextlib.redirect_stdout(io.StringIO()):
        return Replay(seed).run(traces)


def design(chk):
    cfg = "DatasetCache.cfg"
    drop = "{" + ", ".join(f'"{x}"' for x in DROPS) + "}"
    r = core.run_tlc("DatasetCache", cfg, dict(Drop=drop, MaxVer="2" if chk.thorough else "1"), workers=4)
    chk.add_tlc(r, "DatasetCache")
    for x in DROPS:
        try:
            core.run_tlc("DatasetCache", cfg, dict(Drop="{" + ", ".join(f'"{y}"' for y in DROPS if y != x) + "}", MaxVer="1"), workers=4)
        except core.MachineryError as exc:
            if "Invariant Fresh is violated" not in str(exc):
                raise
            chk.count("invalidations shown to be needed")
        else:
            raise core.MachineryError(f"the cache design does not need the invalidation {x}")


def run(chk):
    import hera_pspec  # noqa: F401
    from .. import uvd
    design(chk)
    traces = core.simulate_traces(chk, "Dataset", {}, 2400 if chk.thorough else 260, 30)
    for order in (None, "bl"):  # shared templates
        for p0 in (POL, POL[::-1]):
            for t0 in (0.0, 1.0):
                uvd.build(bls=BL, pols=p0, ntimes=5, t0=t0, autos=(0, 1, 2), order=order)
    items = [(chk.seed * 100 + i, c) for i, c in enumerate(core.chunks(traces, 32))]
    for res in core.pmap(work, items):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
