"""N01: analytic noise errors.

Behaviours of Noise.tla are replayed on real spectra and auto-correlations.  The specification says which antennas,
integrations and channels serve every spectrum; the error is evaluated from them here, by the documented formula, and compared
in every cell, whatever else is in the object."""
import contextlib
import copy
import io
import random
import warnings

import numpy as np

from .. import core

PNAME = {0: 0, 1: 1, 2: 0, 3: 2}  # first polarization of each pair
PNUM = [-5, -6, 1]
NF, F0 = 420, 105e6


class Bad(Exception):
    pass


class Replay:
    def __init__(self, seed):
        from hera_pspec import noise, pspecbeam, utils
        from .. import uvd, uvp
        self.U, self.D, self.P, self.B, self.N, self.seed = uvp, uvd, utils, pspecbeam, noise, seed
        self.viol, self.counts = [], {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ------------------------------------------------------------------ construction
    def make(self, a):
        U, rng, o = self.U, self.rng, a["obj"]
        self.o = o
        self.spws, self.pairs, self.pols = list(o["spws"]), sorted(o["pairs"]), sorted(o["pols"])
        self.times = sorted(o["times"])
        ob = U.Obj(self.spws, [(b, t) for b in self.pairs for t in self.times], self.pols, stats=U.STATS if o["stats"] else (),
                   cov=o["cov"], win="square" if o["win"] else None, beam=True)
        ob.polarr = list(self.pols)
        rng.shuffle(ob.polarr)
        bs = list(self.pairs)
        rng.shuffle(bs)
        ts = list(self.times)
        rng.shuffle(ts)
        ob.rowlist = [(b, t) for b in bs for t in ts]
        if o["rows"] == "order":
            ob.rowlist = [(b, t) for t in ts for b in bs]
        elif o["rows"] == "mixed":
            rng.shuffle(ob.rowlist)
        u = U.build(ob, cosmo=1)
        u.taper = o["taper"]
        g = np.random.default_rng(rng.randrange(10**9))
        for i in range(len(self.spws)):
            u.integration_array[i] = g.integers(1, 50, u.integration_array[i].shape) * 1.0
            u.nsample_array[i] = g.integers(1, 9, u.nsample_array[i].shape) * 1.0
            for x in (u.integration_array[i], u.nsample_array[i]):
                x[g.random(x.shape) < 0.1] = 0.0
            d = u.data_array[i]
            u.data_array[i] = (g.normal(size=d.shape) + 1j * g.normal(size=d.shape)) * 10.0 ** g.uniform(8, 20, d.shape[:1] + (1,) + d.shape[2:])
        u.OmegaP = 0.1 * (1 + g.random(u.OmegaP.shape))
        u.OmegaPP = 0.05 * (1 + g.random(u.OmegaPP.shape))
        self.om = {p: (u.OmegaP[:, q].copy(), u.OmegaPP[:, q].copy()) for q, p in enumerate(ob.polarr)}
        self.rows, self.polarr, self.u = ob.rowlist, ob.polarr, u
        self.setautos(a["autos"])
        for w in ("1", "2"):
            k = np.array([U.TP[t][int(w) - 1] for b, t in self.rows])
            setattr(u, f"time_{w}_array", self.jd[k])
            setattr(u, f"lst_{w}_array", self.lst[k])
        u.time_avg_array = 0.5 * (u.time_1_array + u.time_2_array)
        u.check()

    def setautos(self, a):
        """auto-correlations; the spectra keep their times, so new positions only apply to a new object"""
        D, rng = self.D, random.Random(a["ver"])
        if not hasattr(self, "pos"):
            self.pos = a["pos"]
            self.off = a["wrap"]
        pols = [0, 1, 2]
        rng.shuffle(pols)
        ants = [1, 2, 3, 4]
        rng.shuffle(ants)
        bls = [(1, 2), (3, 1)] if a["extra"] else []
        pos = {k: v for k, v in D.antpos().items()}
        d = D.build(bls, ["xx", "yy", "xy"], len(self.pos), nfreq=NF, freq0=F0, df=self.U.DF, autos=ants + ([0, 5] if a["extra"] else []), pos=pos,
                    order="bl" if a["order"] == "bl" else None, at=self.pos)
        d.polarization_array = np.array([PNUM[p] for p in pols])
        g = np.random.default_rng(a["ver"])
        self.T, self.F = {}, {}
        fl = {}
        for k, c in a["flags"]:
            fl.setdefault(tuple(k), set()).add(c)
        cls = np.arange(NF) % 3
        d.data_array[:] = 1e9 * (1 + 1j)
        d.flag_array[:] = False
        times = np.unique(d.time_array)
        lsts = np.array([d.lst_array[d.time_array == t][0] for t in times])
        shift = {0: 0.0}.get(self.off, 0.0) if self.off == 0 else (2 * np.pi - lsts[min(self.off, len(lsts)) - 1] - 1e-5)
        d.lst_array = (d.lst_array + shift) % (2 * np.pi)
        self.jd, self.lst = times, (lsts + shift) % (2 * np.pi)
        for x in (1, 2, 3, 4):
            for t in range(len(times)):
                r = np.where((d.ant_1_array == x) & (d.ant_2_array == x) & (d.time_array == times[t]))[0]
                assert len(r) == 1
                for q, p in enumerate(pols):
                    v = 10.0 ** g.uniform(1, 4) * (0.5 + g.random(NF))
                    f = np.isin(cls, list(fl.get((x, t, p), ())))
                    v[f] = 10.0 ** g.uniform(6, 8)  # nothing must come of it
                    d.data_array[r[0], :, q], d.flag_array[r[0], :, q] = v + 1j * g.normal(size=NF), f
                    self.T[x, t, p] = v
        self.autopols, self.d = pols, d

    def autos(self, a):
        self.setautos(a["autos"])

    # ------------------------------------------------------------------ changes of the object
    def select(self, a):
        U, u = self.U, self.u
        u.select(spws=[w - 1 for w in a["spws"]], blpairs=[U.blp_int(b) for b in a["pairs"]], times=None,
                 polpairs=[U.POLI[p] for p in a["pols"]])
        keep = [k for k, (b, t) in enumerate(r for r in self.rows if r[0] in a["pairs"]) if t in a["times"]]
        if len({self.U.TP[t] for t in self.times}) and set(a["times"]) != set(self.times):
            sel = sorted({float(u.time_avg_array[k]) for k in keep})
            others = {float(x) for k, x in enumerate(u.time_avg_array) if k not in keep}
            if not others & set(sel):
                u.select(times=sel)
                self.times = sorted(a["times"])
            else:
                raise Skip
        self.spws = [self.spws[w - 1] for w in a["spws"]]
        self.rows = [(b, t) for b, t in self.rows if b in a["pairs"] and t in self.times]
        self.pairs, self.pols = sorted(a["pairs"]), sorted(a["pols"])
        self.polarr = [p for p in self.polarr if p in a["pols"]]

    def average(self, a):
        U, u = self.U, self.u
        g = [U.blp_int(b) for b in a["group"]]
        first = a["group"][0]
        old = [(b, t) for b, t in self.rows]
        u.average_spectra(blpair_groups=[g], time_avg=False)
        self.pairs = sorted((set(self.pairs) - set(a["group"])) | {first})
        inv = {U.blp_int(b): b for b in U.BLP}
        tm = {(round(float(self.jd[x]), 7), round(float(self.jd[y]), 7)): t for t, (x, y) in U.TP.items()}
        self.rows = [(inv[int(b)], tm[round(float(x), 7), round(float(y), 7)]) for b, x, y in zip(u.blpair_array, u.time_1_array, u.time_2_array)]
        if sorted(self.rows) != sorted((b, t) for b, t in old if b in self.pairs):
            raise Bad("averaging changed the rows")

    def fold(self, a):
        self.u.fold_spectra()

    # ------------------------------------------------------------------ noise
    def scalar(self, s, p, h, steps):
        U = self.U
        op, opp = self.om[p]
        return self.B._compute_pspec_scalar(U.COSMO[1], np.linspace(100e6, 200e6, 5), opp / op**2, U.freqs(s), num_steps=steps, taper=self.u.taper,
                                            little_h=h, noise_scalar=True)

    def steps(self, kws, name):
        """number of steps of the integral over frequency: mostly few, which takes less time"""
        n = self.rng.choice([30, 50, 80]) if self.rng.random() < 0.97 else 2000
        if n != 2000:
            kws[name] = n
        return n

    def tsys(self, s, b, side, src, p):
        """mean over the unflagged channels of the geometric mean of the two antennas"""
        x, y = self.U.BLP[b][side]
        t, classes = src
        c0 = int(round((self.U.SPW[s][0] - F0) / self.U.DF))
        c = np.arange(c0, c0 + self.U.SPW[s][1])
        from uvtools import dspec
        w = dspec.gen_window(self.u.taper, len(c)) * np.isin(c % 3, classes)
        q = PNAME[p]
        return np.sum(w * np.sqrt(self.T[x, t, q][c] * self.T[y, t, q][c])) / np.sum(w)

    def key(self, i, b, p):
        return (i, self.U.BLP[b] if self.rng.random() < 0.5 else self.U.blp_int(b), self.U.POLI[p])

    def noise(self, a):
        U, u, rng = self.U, self.u, self.rng
        kinds = {"pn": ["P_N"], "psn": ["P_SN"], "both": ["P_N", "P_SN"]}[a["kind"]]
        kws = dict(err_type=kinds[0] if a["str"] and len(kinds) == 1 else list(kinds), P_SN_correction=a["corr"])
        steps = self.steps(kws, "num_steps_scalar")
        if not a["h"]:
            kws["little_h"] = False
        if a["corr"] and rng.random() < 0.5:
            del kws["P_SN_correction"]
        auto = self.d
        if a["pre"]:
            kws["precomp_P_N"] = "P_N"
            if a["bare"]:
                auto = None
        before, d0 = copy.deepcopy(u), copy.deepcopy(auto)
        old = {n: self.stat(u, n) for n in ("P_N", "P_SN")}
        self.P.uvp_noise_error(u, auto, **kws)
        if auto is not None and auto != d0:
            raise Bad("the auto-correlations were changed")
        dif = [x for x in U.delta(before, u) if not x.startswith("stats_array")]
        if dif:
            raise Bad(f"computing noise errors changed {dif}")
        for n in getattr(before, "stats_array", {}):
            if n not in kinds and not U.same(before.stats_array[n], u.stats_array[n]):
                raise Bad(f"computing {kinds} changed the statistic {n}")
        if set(u.stats_array) - set(getattr(before, "stats_array", {})) - set(kinds):
            raise Bad(f"statistics {sorted(u.stats_array)} after computing {kinds}")
        u.check()
        cells = {(c["b"], c["t"], c["p"]): c for c in a["cells"]}
        for i, s in enumerate(self.spws):
            for p in self.polarr:
                sc = None
                for b in self.pairs:
                    ts = [t for x, t in self.rows if x == b]
                    k = self.key(i, b, p)
                    dat, it, ns = u.get_data(k), u.get_integrations(k), u.get_nsamples(k)
                    got = {n: u.get_stats(n, k) for n in kinds}
                    for j, t in enumerate(ts):
                        what = f"of window {s} ({i}), pair {b}, time {t}, polarization {p}"
                        if a["pre"]:
                            pn = [old["P_N"][i, b, t, p]]
                        else:
                            c = cells[b, t, p]
                            if c["kind"] == "unclear":
                                self.count("unclear cells")
                                continue
                            if sc is None:
                                sc = self.scalar(s, p, a["h"], steps)
                            if c["kind"] == "none":
                                T = [np.inf]
                            else:
                                T = [np.sqrt(self.tsys(s, b, 0, x, p) * self.tsys(s, b, 1, y, p)) for x in c["one"] for y in c["two"]]
                            with np.errstate(all="ignore"):
                                pn = [sc * (np.float64(x) * 1e3) ** 2 / it[j] / np.sqrt(ns[j]) / np.sqrt(2) + np.zeros(dat.shape[1]) for x in T]
                        self.count("noise cells")
                        if "P_N" in kinds:
                            self.among(got["P_N"][j], pn, "P_N " + what)
                        if "P_SN" in kinds:
                            want = []
                            for x in pn:
                                x = np.real(x)
                                ps = np.maximum(dat[j].real, 0)
                                with np.errstate(all="ignore"):
                                    y = np.sqrt(np.sqrt(2) * ps * x + x**2)
                                    if a["corr"]:
                                        y = y * (1 - (np.sqrt(1 / np.sqrt(np.pi) + 1) - 1) * x / y)
                                y[~np.isfinite(y)] = np.inf
                                want.append(y)
                            self.among(got["P_SN"][j], want, f"P_SN ({'' if a['corr'] else 'un'}corrected) " + what)

    def stat(self, u, n):
        if n not in getattr(u, "stats_array", {}):
            return None
        out = {}
        for i, s in enumerate(self.spws):
            for p in self.polarr:
                for b in self.pairs:
                    ts = [t for x, t in self.rows if x == b]
                    g = u.get_stats(n, (i, self.U.blp_int(b), self.U.POLI[p]))
                    for j, t in enumerate(ts):
                        out[i, b, t, p] = np.array(g[j])
        return out

    def among(self, got, wants, what):
        got = np.asarray(got)
        g = got.real
        for w in wants:
            w = np.real(w)
            if g.shape == w.shape and np.all(np.where(np.isinf(w), np.isinf(g) & (g > 0), np.abs(g - w) <= 1e-5 * np.abs(w))):
                if np.any(np.isfinite(w) & ~(np.abs(got.imag) <= 1e-5 * np.abs(w))):
                    raise Bad(f"{what} has an imaginary part")
                return
        raise Bad(f"{what} is {g[:3]}, specified {' or '.join(str(np.real(w)[:3]) for w in wants)}")

    def generate(self, a):
        U, u = self.U, self.u
        i = self.rng.randrange(len(self.spws))
        s, p = self.spws[i], self.rng.choice(self.polarr)
        g = np.random.default_rng(a["ver"])
        n = len(self.times)
        sub = [b for b in self.pairs if b in a["sub"]]
        num = float(g.integers(50, 500))
        arr = {b: g.integers(50, 500, n).astype(float) for b in sub}
        if a["how"] == "times":
            one = arr[sub[0]]
            T, val = one, {b: one for b in sub}
        elif a["how"] == "pairs":
            T, val = {U.blp_int(b): arr[b] for b in sub}, arr
        else:
            T, val = num, {b: np.full(n, num) for b in sub}
        kws = dict(form=a["form"], component=a["comp"])
        steps = self.steps(kws, "num_steps")
        if not a["h"]:
            kws["little_h"] = False
        if not a["all"] or a["ver"] % 2:
            kws["blpairs"] = [U.BLP[b] for b in sub] if a["ver"] % 3 else [U.blp_int(b) for b in sub]
        if a["comp"] == "real" and a["ver"] % 5 < 2:
            del kws["component"]
        pol = U.POLI[p] if a["ver"] % 7 < 4 else U.POL[p]
        before = copy.deepcopy(u)
        with np.errstate(all="ignore"):
            out = u.generate_noise_spectra(i, pol, T, **kws)
        if U.delta(before, u):
            raise Bad("generate_noise_spectra changed the object")
        if sorted(int(x) for x in out) != sorted(U.blp_int(b) for b in sub):
            raise Bad(f"noise of pairs {sorted(out)}, asked for {[U.blp_int(b) for b in sub]}")
        sc = self.scalar(s, p, a["h"], steps)
        for b in sub:
            k = (i, U.blp_int(b), U.POLI[p])
            it, ns = u.get_integrations(k), u.get_nsamples(k)
            with np.errstate(all="ignore"):
                w = sc * (val[b] * 1e3) ** 2 / it / np.sqrt(ns)
            if a["comp"] != "abs":
                w = w / np.sqrt(2)
            dl = u.get_dlys(i)
            w = w[:, None] * np.ones(len(dl))
            if a["form"] == "DelSq":
                z = U.COSMO[1].f2z(np.mean(U.freqs(s)))
                sep = np.mean([np.linalg.norm(U.BLS[bl]) for bl in U.BLP[b]])
                kk = np.sqrt((sep * U.COSMO[1].bl_to_kperp(z, little_h=a["h"])) ** 2 + (np.array(dl) * U.COSMO[1].tau_to_kpara(z, little_h=a["h"])) ** 2)
                w = w * kk**3 / (2 * np.pi**2)
            self.count("generated noise")
            x = np.asarray(out[U.blp_int(b)])
            if x.shape != w.shape or not np.all(np.where(np.isfinite(w), np.abs(x - w) <= 1e-4 * np.abs(w), ~np.isfinite(x))):
                raise Bad(f"noise of window {s}, pair {b}, polarization {p} at {a['how']}: {x.ravel()[:3]}, specified {w.ravel()[:3]}")

    # ------------------------------------------------------------------ system temperatures
    def tsys_(self, a):
        D, U, g = self.D, self.U, np.random.default_rng(a["ver"])
        num = {"xx": -5, "yy": -6, "xy": -7, "pI": 1, "pQ": 2}
        n = len(a["pols"])
        bls = [(1, 2), (2, 3)] if not a["bare"] else []
        d = D.build(bls, ["xx", "yy", "xy", "yx"][:n], 2, nfreq=12, freq0=F0, autos=[2, 1, 3], order="bl" if a["order"] == "bl" else None,
                    flags=lambda *x: g.random(12) < 0.3)
        d.polarization_array = np.array([num[p] for p in a["pols"]])
        d.telescope.feed_angle = None
        fr = np.linspace(100e6, 200e6, 5)
        pols = sorted(a["kept"])
        om = {p: 0.1 * (1 + g.random(5)) for p in pols}
        if a["beam"] == "spectra":
            ids = {"xx": 0, "yy": 1, "pI": 3}
            ob = U.Obj([0], [(0, 0)], [ids[p] for p in pols], beam=True)
            self.rng.shuffle(ob.polarr)
            beam = U.build(ob, cosmo=1)
            for q, p in enumerate(ob.polarr):
                k = [x for x in pols if ids[x] == p][0]
                beam.OmegaP[:, q] = om[k]
                beam.OmegaPP[:, q] = 0.5 * om[k]
        else:
            beam = self.B.PSpecBeamFromArray({p: x for p, x in om.items()}, {p: 0.5 * x for p, x in om.items()}, fr, cosmo=U.COSMO[1])
        kept = copy.deepcopy(d)
        t = self.P.uvd_to_Tsys(d, beam)
        if d != kept:
            raise Bad("uvd_to_Tsys changed its input")
        if set(int(x) for x in t.polarization_array) != {num[p] for p in pols} or len(t.polarization_array) != len(pols):
            raise Bad(f"system temperatures of polarizations {t.polarization_array}, specified {pols}")
        if sorted(t.get_antpairs()) != [(1, 1), (2, 2), (3, 3)]:
            raise Bad(f"system temperatures of {t.get_antpairs()}")
        from scipy.interpolate import interp1d
        f = np.squeeze(d.freq_array)
        for p in pols:
            J = 1e-23 * 2.99792458e10**2 / (2 * 1.380649e-16 * f**2 * interp1d(fr, om[p], kind="quadratic")(f))
            for x in (1, 2, 3):
                self.count("system temperatures")
                w = d.get_data(x, x, num[p]) * J
                v = t.get_data(x, x, num[p])
                if not np.allclose(v, w, rtol=1e-3, atol=0):
                    raise Bad(f"temperature of antenna {x}, polarization {p} (of {a['pols']}): {v.ravel()[:2]}, specified {w.ravel()[:2]}")
                if not np.array_equal(t.get_flags(x, x, num[p]), d.get_flags(x, x, num[p])):
                    raise Bad(f"flags of antenna {x}, polarization {p}")
                if not np.allclose(t.get_times(x, x), d.get_times(x, x), rtol=0, atol=1e-9):
                    raise Bad(f"times of antenna {x}")

    # ------------------------------------------------------------------ behaviours
    def run(self, traces):
        for tr in traces:
            self.seed += 1
            self.rng = random.Random(self.seed)
            self.__dict__.pop("pos", None)
            done = []
            for a in tr:
                done.append(a)
                if a["op"] == "skip":
                    continue
                self.count(a["op"])
                try:
                    getattr(self, {"tsys": "tsys_"}.get(a["op"], a["op"]))(a)
                except Skip:
                    break
                except Bad as exc:
                    self.fail(a, str(exc), done)
                    break
                except Exception as exc:
                    import traceback
                    self.fail(a, "".join(traceback.format_exception(exc))[-1500:], done)
                    break
            if len(self.viol) > 10:
                break
        return dict(violations=self.viol, counts=self.counts, samples=[[a["op"] for a in tr] for tr in traces[:1]])

    def fail(self, a, text, done):
        self.viol.append(dict(clause=a["op"], detail=text, key=a["op"], replay=done))


class Skip(Exception):
    pass


def work(item):
    seed, traces = item
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Replay(seed).run(traces)


def run(chk):
    import hera_pspec  # noqa: F401
    traces = core.simulate_traces(chk, "Noise", {}, 3000 if chk.thorough else 300, 7)
    items = [(chk.seed * 1000 + 41 * i, t) for i, t in enumerate(core.chunks(traces, 32))]
    for res in core.pmap(work, items):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
