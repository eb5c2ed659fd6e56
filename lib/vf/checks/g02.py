"""G02: grouping of baselines and bootstrap resampling.

Deal.tla deals baselines into groups; Bootstrap.tla draws samples with replacement.  TLC enumerates every distribution of
baselines and, for each case (objects, groups), every sample that can be drawn.  The real samples have to be among these
(and, in small cases, all of these have to occur), the averages have to be those of the sample reported, and the error
estimates those of the samples made."""
import contextlib
import copy
import io
import os
import random
import shutil
import tempfile
import warnings

import numpy as np

from .. import core


def cases(rng, n):
    """objects (lists of pairs) and groups, with at most five draws in all"""
    out = []
    while len(out) < n:
        nobj = rng.choice([1, 1, 1, 2, 2, 3])
        pool = list(range(8))
        rng.shuffle(pool)
        groups, k = [], 0
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            m = rng.choice([1, 2, 3, 4, 5])
            groups.append(pool[k:k + m])
            k += m
        groups = [g for g in groups if g]
        # a group begins with different pairs, and there may be pairs in no group
        rest = pool[k:k + rng.choice([0, 0, 1, 2])]
        objs = []
        for _ in range(nobj):
            objs.append(sorted(set(p for g in groups for p in g if nobj == 1 or rng.random() < 0.6) | set(p for p in rest if rng.random() < 0.8)))
        size = [sum(p in o for o in objs for p in g) for g in groups]
        lost = [p for g in groups for p in g if not any(p in o for o in objs)]
        if not all(objs) or not all(size) or sum(size) > 5 or lost:
            continue
        out.append((objs, groups))
    return out


def tla(case):
    objs, groups = case
    return "<<<<" + ", ".join("{" + ", ".join(map(str, o)) + "}" for o in objs) + ">>, <<" + \
        ", ".join("<<" + ", ".join(map(str, g)) + ">>" for g in groups) + ">>>>"


class Bad(Exception):
    pass


class Known(Exception):
    pass


class Replay:
    def __init__(self, seed):
        import hera_pspec as hp
        from hera_pspec import grouping
        from .. import uvp
        self.hp, self.G, self.U = hp, grouping, uvp
        self.seed, self.rng = seed, random.Random(seed)
        self.viol, self.counts = [], {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ------------------------------------------------------------------ objects
    def objects(self, objs, tavg):
        rng = self.rng
        spws = rng.choice([[0], [1, 3], [2], [4, 0]])
        pols = rng.choice([{0}, {0, 1}, {2}])
        times = rng.choice([[0, 1], [0], [1, 2, 3]])
        self.spws, self.pols, self.times = spws, pols, times
        folded = rng.random() < 0.2
        out = []
        for i, pairs in enumerate(objs):
            o = self.U.Obj(spws, {(b, t) for b in pairs for t in times}, pols, src=i, stats=(), cov=rng.random() < 0.1, win=None)
            o.polarr = sorted(o.pols)
            o.rowlist = sorted(o.rows, key=lambda r: (self.hpair(r[0]), r[1]) if i % 2 else (r[1], self.hpair(r[0])))
            u = self.U.build(o)
            for a in range(len(spws)):
                u.integration_array[a][:] = np.array([rng.randrange(1, 4) for _ in range(u.integration_array[a].size)]).reshape(u.integration_array[a].shape)
                u.nsample_array[a][:] = np.array([rng.randrange(1, 3) for _ in range(u.nsample_array[a].size)]).reshape(u.nsample_array[a].shape)
            if folded:
                u.fold_spectra()
            out.append(u)
        return out

    def hpair(self, b):
        return (b * 5 + self.seed) % 8

    def inum(self, b):
        return self.U.blp_int(b)

    def average(self, u, group, mult, key, tavg):
        """weighted mean of a group of an object, from the object's own spectra"""
        num, den = 0.0, 0.0
        for b, m in zip(group, mult):
            k = (key[0], self.inum(b), key[1])
            w = m * (u.get_integrations(k) ** 2 * u.get_nsamples(k))[:, None]
            num = num + w * u.get_data(k)
            den = den + w
        if tavg:
            num, den = num.sum(axis=0)[None], den.sum(axis=0)[None]
        return num / den

    def compare(self, u, avg, groups, wts, tavg, what):
        """avg: average of u with these weights of the pairs available in each group"""
        here = set(self.U.BLP_OF_INT[int(x)] for x in u.blpair_array)
        sets = [([b for b in g if b in here], w) for g, w in zip(groups, wts)]
        sets = [(g, w) for g, w in sets if g]
        loose = here - {b for g in groups for b in g}
        want = {g[0] for g, _ in sets} | loose
        got = {self.U.BLP_OF_INT.get(int(x)) for x in avg.blpair_array}
        if got != want:
            raise Bad(f"{what}: pairs {sorted(map(str, got))}, specified {sorted(want)}")
        if int(avg.Nbltpairs) != len(want) * (1 if tavg else len(self.times)):
            raise Bad(f"{what}: {avg.Nbltpairs} rows for {len(want)} pairs")
        for i in range(len(self.spws)):
            for p in avg.polpair_array:
                for g, w in sets + [([b], [1]) for b in loose]:
                    a = avg.get_data((i, self.inum(g[0]), int(p)))
                    x = self.average(u, g, w, (i, int(p)), tavg)
                    self.count("averages compared")
                    if a.shape != x.shape or not np.allclose(a, x, rtol=1e-9, atol=0):
                        raise Bad(f"{what}: average of group {g} with weights {w} is {np.ravel(a)[:2]}, not {np.ravel(x)[:2]}")

    def sample(self, us, groups, tavg, seed):
        """draws once; returns averages and weights, checked against each other"""
        single = len(us) == 1 and self.rng.random() < 0.7
        arg = us[0] if single else list(us)
        form = self.rng.random() < 0.5
        gs = [[self.U.BLP[b] if form else self.inum(b) for b in g] for g in groups]
        before = copy.deepcopy(us)
        kept = copy.deepcopy(gs)
        try:
            out, wts = self.G.bootstrap_average_blpairs(arg, gs, time_avg=tavg, **({} if seed is None else {"seed": seed}))
        except ValueError as exc:
            if len(us) > 1 and "Sum of baseline-pair weights" in str(exc):
                raise Known("several:undrawn")
            raise
        if any(self.U.delta(x, y) for x, y in zip(before, us)) or gs != kept:
            raise Bad("bootstrap sampling changed its input")
        if single:
            out, wts = [out], [wts]
        if len(out) != len(us) or len(wts) != len(us):
            raise Bad(f"{len(out)} averages and {len(wts)} lists of weights of {len(us)} objects")
        return out, [[[float(x) for x in g] for g in w] for w in wts]

    def flat(self, wts, ngroups):
        """weights in the order of Bootstrap.tla"""
        if any(len(w) != ngroups for w in wts):
            raise Bad(f"weights {wts} are not given for every group")
        return tuple(tuple(x for w in wts for x in w[k]) for k in range(ngroups))

    # ------------------------------------------------------------------ a case
    def case(self, objs, groups, possible, draws, cover):
        tavg = self.rng.random() < 0.4
        us = self.objects(objs, tavg)
        seen, flats = set(), []
        for i in range(draws):
            seed = None if i % 3 == 2 else self.rng.randrange(10**6)
            try:
                out, wts = self.sample(us, groups, tavg, seed)
            except Known as exc:
                self.known(str(exc), objs, groups)
                continue
            f = self.flat(wts, len(groups))
            self.count("samples drawn")
            if f not in possible:
                raise Bad(f"weights {wts} of groups {groups} in objects {objs} cannot be drawn")
            flats.append(f)
            seen.add(f)
            if i < 4 or not cover:
                for u, a, w in zip(us, out, wts):
                    self.compare(u, a, groups, w, tavg, "bootstrap average")
            if seed is not None and i < 3:
                try:
                    again, w2 = self.sample(us, groups, tavg, seed)
                except Known:
                    raise Bad("the same seed gives different samples")
                if w2 != wts:
                    raise Bad(f"the same seed gives weights {wts} and {w2}")
        if cover and len(objs) == 1:
            self.count("cases covered")
            if seen != possible:
                raise Bad(f"of {len(possible)} samples of groups {groups}, {sorted(possible - seen)[:4]} never occur in {draws} draws")

    def known(self, key, objs, groups):
        if not any(v["key"] == key for v in self.viol):
            self.viol.append(dict(clause="several objects", key=key, replay=dict(objs=objs, groups=groups),
                                  detail=f"objects {objs}, groups {groups}: no pair of a group drawn from one of the objects: ValueError"))

    def spread(self, objs, groups, possible):
        """error estimates of one object"""
        rng = self.rng
        tavg = rng.random() < 0.4
        u = self.objects(objs, tavg)[0]
        n = rng.choice([2, 3, 5])
        ci = rng.choice([None, [16.0], [2.5, 50.0, 97.5]])
        std, rob = rng.random() < 0.7, rng.random() < 0.5
        form = rng.random() < 0.5
        gs = [[self.U.BLP[b] if form else self.inum(b) for b in g] for g in groups]
        before = copy.deepcopy(u)
        seed = rng.choice([0, 5, None, 77])
        kw = dict(blpair_groups=gs, time_avg=tavg, Nsamples=n, seed=seed, normal_std=std, robust_std=rob, cintervals=ci)
        avg, boots, wgts = self.G.bootstrap_resampled_error(u, **kw)
        if self.U.delta(before, u):
            raise Bad("bootstrap error estimation changed its input")
        if len(boots) != n or len(wgts) != n:
            raise Bad(f"{len(boots)} samples of {n}")
        self.compare(u, avg, groups, [[1.0] * len(g) for g in groups], tavg, "uniform average")
        for b, w in zip(boots, wgts):
            w = [[float(x) for x in g] for g in w]
            if self.flat([w], len(groups)) not in possible:
                raise Bad(f"weights {w} cannot be drawn")
            self.compare(u, b, groups, w, tavg, "sample")
        names = (["bs_std"] if std else []) + (["bs_robust_std"] if rob else []) + [f"bs_cinterval_{c:05.2f}" for c in ci or []]
        got = sorted(getattr(avg, "stats_array", {}))
        if got != sorted(names):
            raise Bad(f"error estimates {got}, specified {sorted(names)}")
        from astropy.stats import biweight_midvariance
        for b in sorted({int(x) for x in avg.blpair_array}):
            for i in range(len(self.spws)):
                for p in avg.polpair_array:
                    k = (i, b, int(p))
                    x = np.array([v.get_data(k) for v in boots])
                    mean = [sum(y) / n for y in (x.real, x.imag)]
                    for nm in names:
                        if nm == "bs_std":
                            w = [np.sqrt(sum((y - m) ** 2) / n) for y, m in zip((x.real, x.imag), mean)]
                        elif nm == "bs_robust_std":
                            w = [np.sqrt(biweight_midvariance(y, axis=0)) for y in (x.real, x.imag)]
                        else:
                            w = [np.percentile(y, float(nm[13:]), axis=0) for y in (x.real, x.imag)]
                        g = avg.get_stats(nm, k)
                        self.count("error estimates compared")
                        tol = 1e-9 * np.max(np.abs(x)) + 1e-12
                        if g.shape != w[0].shape or not (np.allclose(np.real(g), w[0], atol=tol, rtol=1e-7, equal_nan=True) and np.allclose(np.imag(g), w[1], atol=tol, rtol=1e-7, equal_nan=True)):
                            raise Bad(f"{nm} of pair {self.U.BLP_OF_INT[b]} is {np.ravel(g)[:2]}, of the samples {np.ravel(w[0])[:2]} + i {np.ravel(w[1])[:2]}")
        if seed is not None:
            again = self.G.bootstrap_resampled_error(u, **kw)[2]
            if [[list(map(float, g)) for g in w] for w in again] != [[list(map(float, g)) for g in w] for w in wgts]:
                raise Bad("the same seed gives different samples")

    def container(self, objs, groups):
        """a run over a container of spectra"""
        rng = self.rng
        tavg = rng.random() < 0.4
        d = tempfile.mkdtemp(prefix="boot_")
        try:
            path = os.path.join(d, "c.h5")
            u = self.objects(objs, tavg)[0]
            psc = self.hp.PSpecContainer(path, mode="rw", keep_open=False)
            names = [("a", "s1"), ("a", "s2"), ("b", "s1")]
            us = {}
            for i, (g, s) in enumerate(names):
                v = copy.deepcopy(u)
                for k in v.data_array:
                    v.data_array[k] = v.data_array[k] * (i + 1)
                us[(g, s)] = v
                psc.set_pspec(g, s, v)
            sel = rng.choice([None, ["a/s1"], ["b/s1", "a/s2"]])
            n, keep = rng.choice([2, 3]), rng.random() < 0.5
            kw = dict(blpair_groups=[[self.U.BLP[b] for b in g] for g in groups], time_avg=tavg, Nsamples=n, keep_samples=keep,
                      robust_std=False, verbose=False, seed=rng.choice([0, 3]))
            if sel:
                kw["spectra"] = list(sel)
            arg = path if rng.random() < 0.5 else psc
            self.G.bootstrap_run(arg, **kw)
            done = [x for x in names if sel is None or "/".join(x) in sel]
            want = {}
            for g, s in names:
                want.setdefault(g, set()).add(s)
            for g, s in done:
                want[g] |= {s + "_avg"} | ({f"{s}_bs{i}" for i in range(n)} if keep else set())
            got = {g: set(psc.spectra(g)) for g in psc.groups()}
            if got != want:
                raise Bad(f"container holds {got}, specified {want} (spectra {sel})")
            for g, s in names:
                if self.U.delta(us[(g, s)], psc.get_pspec(g, s), ignore=("history",)):
                    raise Bad(f"{g}/{s} was changed by the run")
            first = {}
            for g, s in done:
                avg = psc.get_pspec(g, s + "_avg")
                self.compare(us[(g, s)], avg, groups, [[1.0] * len(x) for x in groups], tavg, f"{g}/{s}_avg")
                first[(g, s)] = avg
                if sorted(avg.stats_array) != ["bs_std"]:
                    raise Bad(f"error estimates {sorted(avg.stats_array)}")
                if keep:
                    boots = [psc.get_pspec(g, f"{s}_bs{i}") for i in range(n)]
                    for k in avg.get_all_keys():
                        x = np.array([b.get_data(k) for b in boots])
                        y = avg.get_stats("bs_std", k)
                        if not np.allclose(y, x.real.std(axis=0) + 1j * x.imag.std(axis=0), rtol=1e-7, atol=1e-6):
                            raise Bad("the error estimate is not that of the samples stored")
            try:
                self.G.bootstrap_run(arg, **kw)
            except (AttributeError, OSError, ValueError, KeyError, AssertionError):
                self.count("refused to overwrite")
            else:
                raise Bad("a second run overwrites without being asked to")
            # all of the spectra, those of the first run included, with the given samples
            self.G.bootstrap_run(arg, overwrite=True, **dict(kw, spectra=["/".join(x) for x in done]))
            for g, s in done:
                avg = psc.get_pspec(g, s + "_avg")
                for k in avg.get_all_keys():
                    if not np.array_equal(avg.get_stats("bs_std", k), first[(g, s)].get_stats("bs_std", k)):
                        raise Bad("the same seed gives other errors in a second run")
        finally:
            shutil.rmtree(d, ignore_errors=True)

    # ------------------------------------------------------------------ lists of baselines
    def deal(self, rec):
        rng = self.rng
        n, k = rec["n"], rec["k"]
        bls = [(rng.randrange(90), 100 + i) for i in range(n)]
        keep = copy.deepcopy(bls)
        how = rng.random()
        kw = dict(keep_remainder=rec["keep"])
        if how < 0.5:
            kw.update(randomize=True)
            if how < 0.3:
                kw["seed"] = rng.choice([0, rng.randrange(1000)])
        got = self.G.group_baselines(bls, k, **kw)
        if bls != keep:
            raise Bad(f"grouping changed the list of baselines: {keep} -> {bls}")
        sizes = [len(h) for h in rec["hands"]]
        if [len(g) for g in got] != sizes:
            raise Bad(f"{n} baselines in {k} groups: sizes {[len(g) for g in got]}, specified {sizes}")
        flat = [b for g in got for b in g]
        if len(set(flat)) != len(flat) or not set(flat) <= set(bls):
            raise Bad(f"grouping {bls}: {got}")
        if how >= 0.5 and [list(g) for g in got] != [[bls[i - 1] for i in h] for h in rec["hands"]]:
            raise Bad(f"grouping {bls} in order: {got}")
        if how < 0.3 and self.G.group_baselines(bls, k, **kw) != got:
            raise Bad("the same seed gives different groups")
        self.count("groupings")
        for items in (bls, got):
            sd = rng.choice([0, 4])
            s = self.G.sample_baselines(items, **({"seed": sd} if how < 0.5 else {}))
            if len(s) != len(items) or any(x not in items for x in s):
                raise Bad(f"a sample {s} of {items}")
            if how < 0.5 and self.G.sample_baselines(items, seed=sd) != s:
                raise Bad("the same seed gives different samples")
        if k == n:
            try:
                self.G.group_baselines(bls, n + 1)
            except ValueError:
                pass
            else:
                raise Bad("more groups than baselines are accepted")

    def chance(self):
        """every baseline can be drawn, and every order"""
        bls = [(1, 2), (2, 3), (3, 4)]
        random.seed(self.seed)
        seen = {tuple(self.G.sample_baselines(bls)) for _ in range(600)}
        if len(seen) != 27:
            raise Bad(f"{len(seen)} of 27 samples of three baselines occur in 600 draws")
        seen = {tuple(map(tuple, self.G.group_baselines(bls, 3, randomize=True))) for _ in range(150)}
        if len(seen) != 6:
            raise Bad(f"{len(seen)} of 6 orders of three baselines occur in 150 groupings")
        u = self.objects([[0, 1, 2]], True)[0]
        seen = set()
        for seed in (0, 11):
            w = self.G.bootstrap_resampled_error(u, blpair_groups=[[self.inum(b) for b in (0, 1, 2)]], time_avg=True, Nsamples=150, seed=seed)[2]
            seen |= {tuple(float(x) for x in g[0]) for g in w}
            self.count("runs of many resamples")
        if len(seen) != 10:
            raise Bad(f"{len(seen)} of the 10 resamples of three pairs occur among 300")

    def attempt(self, clause, f, *args):
        self.seed += 1
        try:
            f(*args)
        except Bad as exc:
            self.viol.append(dict(clause=clause, detail=str(exc)[:1500], replay=[str(a)[:3000] for a in args], key=clause))


def work(item):
    seed, what, jobs = item
    r = Replay(seed)
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for j in jobs:
            if len(r.viol) > 8:
                break
            if what == "deal":
                r.attempt("groups", r.deal, j)
            elif what == "chance":
                r.attempt("chance", r.chance)
            else:
                objs, groups, possible, draws, cover, full = j
                r.count("cases")
                r.attempt("sample", r.case, objs, groups, possible, draws, cover)
                if len(objs) == 1:
                    r.attempt("error", r.spread, objs, groups, possible)
                    if full:
                        r.attempt("container", r.container, objs, groups)
    return dict(violations=r.viol, counts=r.counts, samples=[])


def run(chk):
    import hera_pspec  # noqa: F401
    r = core.run_tlc("Deal", "Deal.cfg", dict(MaxN="12" if chk.thorough else "9", Emit="TRUE"), workers=2, timeout=900)
    chk.add_tlc(r, "Deal")
    rng = random.Random(chk.seed * 17)
    cs = cases(rng, 600 if chk.thorough else 120)
    b = core.run_tlc("Bootstrap", "Bootstrap.cfg", dict(Configs="{" + ",\n".join(tla(c) for c in cs) + "}", NSamples="1", Emit="TRUE"),
                     workers=4, timeout=2000, heap="8g")
    chk.add_tlc(b, "Bootstrap")
    possible = {}
    for x in b.records:
        key = (tuple(tuple(sorted(o)) for o in x["objs"]), tuple(tuple(g) for g in x["groups"]))
        possible.setdefault(key, set()).add(tuple(tuple(float(y) for y in g) for g in x["wts"]))
    jobs = []
    for i, (objs, groups) in enumerate(cs):
        p = possible[(tuple(map(tuple, objs)), tuple(map(tuple, groups)))]
        cover = len(objs) == 1 and 3 <= len(p) <= 10 and max(map(len, groups)) <= 3 and i % 3 == 0
        jobs.append((objs, groups, p, 400 if cover else 8, cover, i % 2 == 0))
    jobs.sort(key=lambda j: -j[3])
    chk.sample(dict(case=cs[0], samples=len(possible[(tuple(map(tuple, cs[0][0])), tuple(map(tuple, cs[0][1])))])))
    parts = [jobs[i::32] for i in range(32)]
    items = [(chk.seed * 1000 + 37 * i, "case", p) for i, p in enumerate(parts)]
    items += [(chk.seed * 1000 + 7 * i, "deal", p) for i, p in enumerate(core.chunks(r.records, 8))] + [(chk.seed, "chance", [0])]
    for res in core.pmap(work, items):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(cs) + len(r.records))
