"""G03: re-binning of power spectra in delay and in spherical shells.

Behaviours of Binning.tla (folding, bins of delay, spherical bins) are replayed on real objects whose baseline lengths are
those of the specification.  The specification says which modes make up every bin; their numbers are combined here and
every cell of every array of the real result is compared."""
import contextlib
import copy
import io
import random
import warnings

import numpy as np

from .. import core

NAMES = ["data", "wgt", "integ", "nsamp", "covr", "covi", "win", "err", "noise_1_of_2"]


class Bad(Exception):
    pass


def scales():
    """k of a delay step (1/10 units) and of a metre (1/100000 units) for every window, from the cosmology"""
    from .. import uvp as U
    q, c = [], []
    for s in range(6):
        z = U.COSMO[1].f2z(np.mean(U.freqs(s)))
        q.append(round(1e4 * U.COSMO[1].tau_to_kpara(z, little_h=True) * np.diff(U.dlys(s))[0]))
        c.append(round(1e8 * U.COSMO[1].bl_to_kperp(z, little_h=True)))
    return q, c


class Replay:
    def __init__(self, seed):
        from hera_pspec import grouping
        from .. import uvp
        self.U, self.G, self.seed = uvp, grouping, seed
        self.viol, self.counts = [], {}

    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    # ------------------------------------------------------------------ construction
    def make(self, a):
        U, rng = self.U, self.rng
        o = a["obj"]
        self.o = o
        self.spws, self.pairs, self.pols = o["spws"], sorted(o["pairs"]), sorted(o["pols"])
        rank = lambda t: (U.TP[t][0], U.TP[t][1])
        self.times = sorted(o["times"], key=rank)
        ob = U.Obj(self.spws, [(b, t) for b in self.pairs for t in self.times], self.pols, stats=U.STATS if o["stats"] else (),
                   cov=o["cov"], win=None if o["win"] == "no" else o["win"])
        ob.polarr = list(self.pols)
        rng.shuffle(ob.polarr)
        bs = list(self.pairs)
        rng.shuffle(bs)
        ob.rowlist = [(b, t) for b in bs for t in self.times]
        if o["rows"] == "order":
            ob.rowlist = [(b, t) for t in self.times for b in bs]
        elif o["rows"] == "mixed":
            rng.shuffle(ob.rowlist)
        u = U.build(ob, cosmo=1)
        self.rows, self.polarr = ob.rowlist, ob.polarr
        names = sorted(U.BLS)
        names = [(1, 2), (2, 3), (3, 4), (1, 3), (2, 4)]
        lens = {U.bl_int(bl): l for bl, l in zip(names, o["lens"])}
        from .g01 import itrf
        v = itrf({0: [0.6, 0.8, 0.0]})[0]  # horizontal
        u.bl_vecs = np.array([lens[int(b)] * v for b in u.bl_array])
        off = rng.choice([0.0, 1.0, 2 * np.pi - 1.0003])  # sidereal time wraps somewhere
        for nm in ("lst_1_array", "lst_2_array", "lst_avg_array"):
            setattr(u, nm, (getattr(u, nm) + off) % (2 * np.pi))
        self.lst = {t: tuple(getattr(u, nm)[self.rows.index((self.pairs[0], t))] for nm in ("lst_1_array", "lst_2_array", "lst_avg_array"))
                    for t in self.times}
        dead = {tuple(c) for c in o["dead"]}
        g = np.random.default_rng(rng.randrange(10**9))
        self.cur = {}
        for i, s in enumerate(self.spws):
            nd = U.SPW[s][2]
            if o["win"] == "exact":
                for q in range(len(self.pols)):
                    u.window_function_kperp[i][:, q] = np.array([40, 410, 1120]) / 1e3
                    u.window_function_kpara[i][:, q] = np.array([0, 530, 1390, 2210]) / 1e3
            for r, (b, t) in enumerate(self.rows):
                for q, p in enumerate(self.polarr):
                    it, ns = g.integers(1, 9), g.integers(1, 5)
                    if (s, b, t, p) in dead:
                        it, ns = (it, 0) if g.random() < 0.3 else (0, ns)
                    u.integration_array[i][r, q], u.nsample_array[i][r, q] = it, ns
                    if o["stats"]:
                        for st in U.STATS:
                            e = 2.0 ** g.integers(-3, 4, nd) * 10.0 ** g.choice([0, -5, 8])
                            e[g.random(nd) < 0.1] = np.inf if st == "err" else 7.0
                            u.stats_array[st][i][r, :, q] = e
                    if o["cov"]:
                        m = g.normal(size=(nd, nd))
                        u.cov_array_real[i][r, :, :, q] = (m @ m.T / nd + np.eye(nd)) * 10.0 ** g.integers(-2, 3)
        u.check()
        for i, s in enumerate(self.spws):
            for r, (b, t) in enumerate(self.rows):
                for q, p in enumerate(self.polarr):
                    for n in NAMES:
                        x = self.arr(u, n)
                        if x is not None:
                            self.cur[n, s, b, t, p] = np.array(x[i][r, ..., q])
        self.modes = {s: [(d - U.SPW[s][2] // 2, [(d, 1.0)]) for d in range(U.SPW[s][2])] for s in self.spws}
        self.folded = False
        self.u = u

    def arr(self, u, n):
        if n in ("err", "noise_1_of_2"):
            return getattr(u, "stats_array", {}).get(n)
        return getattr(u, dict(data="data_array", wgt="wgt_array", integ="integration_array", nsamp="nsample_array", covr="cov_array_real",
                               covi="cov_array_imag", win="window_function_array")[n], None)

    # ------------------------------------------------------------------ folding, bins of delay
    def fold(self, a):
        self.u.fold_spectra()
        new = {}
        for (n, s, b, t, p), x in self.cur.items():
            kind = "xwin" if n == "win" and self.o["win"] == "exact" else n
            if n in self.U.STATS:
                with np.errstate(all="ignore"):
                    i, j = self.halves(s)
                    new[n, s, b, t, p] = (1 / np.real(x)[i] ** 2 + 1 / np.real(x)[j] ** 2) ** -0.5
            elif n in ("wgt", "integ"):
                new[n, s, b, t, p] = x
            elif n == "nsamp":
                new[n, s, b, t, p] = 2 * x
            else:
                i, j = self.halves(s)
                if n == "data" or kind == "xwin":
                    new[n, s, b, t, p] = 0.5 * (x[i] + x[j])
                elif n == "win":  # its columns are the original delays
                    nd = self.U.SPW[s][2]
                    z = nd // 2
                    ci, cj = range(z + 1, nd), [2 * z - c for c in range(z + 1, nd)]
                    new[n, s, b, t, p] = 0.25 * sum(x[np.ix_(r, c)] for r in (i, j) for c in (ci, cj))
                else:
                    new[n, s, b, t, p] = 0.25 * sum(x[np.ix_(r, c)] for r in (i, j) for c in (i, j))
        self.cur, self.folded = new, True
        self.modes = {s: [m for m in self.modes[s] if m[0] > 0] for s in self.spws}

    def halves(self, s):
        """indices of the positive modes and of their mirror images"""
        k = [m[0] for m in self.modes[s]]
        i = [n for n, x in enumerate(k) if x > 0]
        return i, [int(np.argmin(np.abs(np.array(k) + k[n]))) for n in i]

    def bin(self, a):
        U, rng = self.U, self.rng
        ker, zker = np.array(a["kernel"]), np.array(a["zker"])
        if rng.random() < 0.5:
            ker, zker = ker * rng.choice([1.0, 0.5]), zker * 3.0
        k0, z0 = ker.copy(), zker.copy()
        kw = {}
        if list(a["zker"]) != [1] or rng.random() < 0.3:
            kw["zero_bin_kernel"] = zker
        if self.o["stats"]:
            kw["cov_weighted_stats"] = tuple(U.STATS[:1]) if a["bycov"] else ()
        before = copy.deepcopy(self.u)
        out = self.G.average_in_delay_bins(self.u, ker, **kw)
        if U.delta(before, self.u):
            raise Bad("average_in_delay_bins changed its input")
        if not (np.array_equal(ker, k0) and np.array_equal(zker, z0)):
            raise Bad("average_in_delay_bins changed the kernel given")
        new = {}
        for i, s in enumerate(self.spws):
            M = a["modes"][i]
            nd = U.SPW[s][2]
            K = np.zeros((len(M), nd))
            for j, m in enumerate(M):
                for d, w in m["mem"]:
                    K[j, d - 1] += w / m["den"]
            for b in self.pairs:
                for t in self.times:
                    for p in self.pols:
                        for n in NAMES:
                            x = self.cur.get((n, s, b, t, p))
                            if x is None:
                                continue
                            if n in ("data", "win"):
                                y = np.tensordot(K, x, 1)
                            elif n in ("covr", "covi"):
                                y = K @ x @ K.T
                            elif n in U.STATS:
                                e = np.real(x)
                                with np.errstate(all="ignore"):
                                    if a["bycov"] and n == U.STATS[0]:
                                        c = self.cur["covr", s, b, t, p]
                                        dg = np.sqrt(np.diag(c))
                                        cc = c / dg[:, None] / dg[None, :]
                                        ef = np.where(np.isfinite(e), e, 0)
                                        y = np.sqrt(np.diag(K @ (cc * ef[:, None] * ef[None, :]) @ K.T))
                                    else:
                                        y = np.sqrt(np.array([np.sum(np.where(k > 0, np.where(np.isfinite(e), e, 0) ** 2 * k, 0)) for k in K]))
                                y[(K > 0) @ ~np.isfinite(e)] = np.nan  # infinite or undefined
                                for j, m in enumerate(M):
                                    if any(w == 0 and not np.isfinite(e[d - 1]) for d, w in m["mem"]):
                                        y[j] = np.inf  # of no weight, but multiplied
                            else:
                                y = x
                            new[n, s, b, t, p] = y
            self.modes[s] = [(m["num"] / m["den"], m["mem"]) for m in M]
        self.cur = new
        self.u = out
        if self.o["stats"]:  # later steps weigh by errors: leave no undefined ones
            for i, s in enumerate(self.spws):
                for r, (b, t) in enumerate(self.rows):
                    for q, p in enumerate(self.polarr):
                        for st in U.STATS:
                            bad = np.isnan(self.cur[st, s, b, t, p])
                            got = self.u.stats_array[st][i][r, :, q]
                            got[np.isinf(self.cur[st, s, b, t, p])] = np.inf
                            if np.any(np.isfinite(got[bad])):
                                raise Bad(f"statistic {st} of a bin with infinite error is {got[bad]}")
                            got[bad] = np.inf
                            self.cur[st, s, b, t, p][bad] = np.inf

    # ------------------------------------------------------------------ comparison of the object itself
    def same(self, got, want, what):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Bad(f"{what}: shape {got.shape}, specified {want.shape}")
        with np.errstate(all="ignore"):
            inf = np.isinf(want)
            scale = np.max(np.abs(want[np.isfinite(want)]), initial=0.0)
            ok = np.where(inf, np.abs(got) > 1e15, np.abs(got - want) <= 1e-9 * np.abs(want) + 1e-11 * scale)
        if not np.all(ok):
            k = tuple(int(x[0]) for x in np.where(~ok)) if ok.ndim else ()
            raise Bad(f"{what}: at {k} {got[k]}, specified {want[k]}")

    def whole(self):
        """the folded or delay-binned object"""
        u = self.u
        for i, s in enumerate(self.spws):
            want = np.array([m[0] for m in self.modes[s]]) * np.diff(self.U.dlys(s))[0]
            self.same(u.get_dlys(i), want, f"delays of window {i}")
            for r, (b, t) in enumerate(self.rows):
                for q, p in enumerate(self.polarr):
                    for n in NAMES:
                        x = self.cur.get((n, s, b, t, p))
                        if x is None:
                            continue
                        g = self.arr(u, n)[i][r, ..., q]
                        if self.folded and n not in ("wgt", "integ", "nsamp"):
                            m = len(self.modes[s])
                            g = g[-m:] if n != "win" or self.o["win"] == "exact" else g[-m:, -x.shape[1]:]
                            g = g[:, -m:] if n in ("covr", "covi") else g
                        self.same(g, x, f"{n} of window {i}, pair {b}, time {t}, polarization {p}")
        u.check()
        if u.Nspwdlys != len(u.dly_array) or u.Ndlys != len(np.unique(u.dly_array)):
            raise Bad(f"Ndlys {u.Ndlys}, Nspwdlys {u.Nspwdlys} for {len(u.dly_array)} delays")

    # ------------------------------------------------------------------ spherical bins
    def sphere(self, a):
        U, G, rng, o, u = self.U, self.G, self.rng, self.o, self.u
        edge = lambda e: e / 1e3
        lo, hi = np.array([edge(x[0]) for x in a["bins"]]), np.array([edge(x[1]) for x in a["bins"]])
        kb, kw = 0.5 * (lo + hi), hi - lo
        f = 1.0
        kws = {}
        if a["h"]:
            f = u.cosmo.h
            kws["little_h"] = False
        args = [kb * f, kw * f]
        if np.ptp(kw) < 1e-12 and rng.random() < 0.5:
            args[1] = float(kw[0] * f)
        if a["given"]:
            kws["kbins_theory"] = np.array([0.5 * (edge(x[0]) + edge(x[1])) for x in a["theory"]]) * f
        if a["how"] == "err":
            kws["error_weights"] = "err"
        elif a["how"] == "cov":
            kws["weight_by_cov"] = True
        if rng.random() < 0.3:
            kws["A"] = {}
        if o["win"] == "exact":
            kws["blpair_groups"] = [[x] for x in self.blps(rng)]
            if a["how"] == "err":
                del kws["error_weights"]  # averaging single pairs by errors is something else
        kept = copy.deepcopy((args, kws))
        before = copy.deepcopy(u)
        out = G.spherical_average(u, *args, **kws)
        if U.delta(before, u):
            raise Bad("spherical_average changed its input")
        for x, y in zip(args + [kws.get("kbins_theory")], kept[0] + [kept[1].get("kbins_theory")]):
            if x is not None and not np.array_equal(x, y):
                raise Bad("spherical_average changed its arguments")
        self.meta(out, kb)
        how = a["how"] if not (o["win"] == "exact" and a["how"] == "err") else "uniform"
        for i, s in enumerate(self.spws):
            mem = [[(b, j - 1) for b, j in cell] for cell in a["members"][i]]
            for k, t in enumerate(self.times):
                for q, p in enumerate(self.polarr):
                    self.cell(out, a, how, mem, i, s, k, t, q, p)
        if rng.random() < 0.5 and o["rows"] != "mixed":
            self.first_average(a, args, kws, how)

    def blps(self, rng):
        return [self.U.blp_int(b) for b in self.pairs] if rng.random() < 0.5 else [self.U.BLP[b] for b in self.pairs]

    def meta(self, out, kb):
        U = self.U
        out.check()
        n = len(self.times)
        if (out.Nbltpairs, out.Nblpairs, out.Ntpairs, out.Ntimes) != (n, 1, n, n):
            raise Bad(f"Nbltpairs, Nblpairs, Ntpairs, Ntimes {out.Nbltpairs, out.Nblpairs, out.Ntpairs, out.Ntimes} of {n} times")
        if out.Nspwdlys != len(kb) * len(self.spws):
            raise Bad(f"Nspwdlys {out.Nspwdlys}")
        for i in range(len(self.spws)):
            if not np.allclose(out.get_kparas(i), kb, rtol=1e-6, atol=1e-9):
                raise Bad(f"bins {out.get_kparas(i)} of window {i}, specified {kb}")
        if not np.allclose(out.get_blpair_seps(), 0):
            raise Bad("separation is not zero")
        t1 = [U.jd(U.TP[t][0]) for t in self.times]
        t2 = [U.jd(U.TP[t][1]) for t in self.times]
        lst = np.array([self.lst[t] for t in self.times]).reshape(-1, 3)
        for nm, w in (("time_1_array", t1), ("time_2_array", t2), ("time_avg_array", np.add(t1, t2) / 2), ("lst_1_array", lst[:, 0]),
                      ("lst_2_array", lst[:, 1]), ("lst_avg_array", lst[:, 2])):
            g = getattr(out, nm)
            if g.shape != (n,) or not np.allclose(g, w, rtol=0, atol=1e-9):
                raise Bad(f"{nm} {g}, specified {w}")
        if out.label_1_array.shape[1] != n or len(out.blpair_array) != n:
            raise Bad("labels or baseline-pairs do not match the times")

    def weights(self, how, s, t, p):
        """weight matrix of every pair"""
        E = {}
        for b in self.pairs:
            n = len(self.modes[s])
            if how == "cov":
                E[b] = np.linalg.inv(self.cur["covr", s, b, t, p])
            elif how == "err":
                with np.errstate(all="ignore"):
                    E[b] = np.diag(1 / np.real(self.cur["err", s, b, t, p]) ** 2)
            else:
                E[b] = np.eye(n) * float(self.cur["integ", s, b, t, p] * self.cur["nsamp", s, b, t, p] > 0)
        return E

    def cell(self, out, a, how, mem, i, s, k, t, q, p):
        nb, n = len(mem), len(self.modes[s])
        cur = lambda nm, b: self.cur[nm, s, b, t, p]
        has = lambda nm: (nm, s, self.pairs[0], t, p) in self.cur
        what = f"window {i}, time {t}, polarization {p}, weights {how}"
        E = self.weights(how, s, t, p)
        A = {b: np.zeros((n, nb)) for b in self.pairs}
        for c, cell in enumerate(mem):
            for b, j in cell:
                A[b][j, c] = 1.0
        S = sum(A[b].T @ E[b] @ A[b] for b in self.pairs)
        live = np.diag(S) > 0
        inv = np.zeros_like(S)
        inv[np.ix_(live, live)] = np.linalg.inv(S[np.ix_(live, live)])
        H = {b: inv @ A[b].T @ E[b] for b in self.pairs}  # p = sum H x
        self.count("spherical cells")
        self.same(out.data_array[i][k, :, q], sum(H[b] @ cur("data", b) for b in self.pairs), "data of " + what)
        W = {b: np.trace(E[b]) for b in self.pairs}
        tot = sum(W.values())
        self.same(out.integration_array[i][k, q], sum(W[b] * cur("integ", b) for b in self.pairs) / (tot or 1.0), "integration time of " + what)
        self.same(out.nsample_array[i][k, q], sum(cur("nsamp", b) for b in self.pairs), "samples of " + what)
        w = sum(W[b] * cur("wgt", b) for b in self.pairs)
        g = out.wgt_array[i][k, ..., q]
        if np.max(w) > 0:
            self.same(g * (np.max(w) / (np.max(g) or 1.0)), w, "weights of " + what)
        elif np.any(g != 0):
            raise Bad("weights of " + what + " are not zero")
        for st in self.U.STATS:
            if has(st):
                var = np.zeros(nb)
                for b in self.pairs:
                    with np.errstate(all="ignore"):
                        var = var + np.nansum(np.where(H[b] != 0, H[b] ** 2 * np.real(cur(st, b)) ** 2, 0), axis=1)
                if how == "cov" and any(np.any(np.isinf(cur(st, b))) for b in self.pairs):
                    continue  # the weights of infinite errors are rounding errors
                self.same(out.stats_array[st][i][k, :, q].real, np.where(live, np.sqrt(var), np.inf), f"statistic {st} of " + what)
        if has("covr"):
            self.same(out.cov_array_real[i][k, :, :, q], sum(H[b] @ cur("covr", b) @ H[b].T for b in self.pairs), "covariance of " + what)
            if np.any(out.cov_array_imag[i][k, :, :, q] != 0):
                raise Bad("imaginary covariance of " + what)
        if self.o["win"] == "square":
            nt = len(a["theory"])
            wf = np.zeros((nb, nt))
            for b in self.pairs:
                cols = [x[1] for x in a["columns"][i] if x[0] == b][0]
                x = cur("win", b)
                z = len(cols) - x.shape[1]
                for c, m in enumerate(cols):
                    if m and c >= z:
                        wf[:, m - 1] += H[b] @ x[:, c - z]
            self.same(out.window_function_array[i][k, :, :, q], wf, "window functions of " + what)
        elif self.o["win"] == "exact":
            nt = len(a["theory"])
            wf = np.zeros((nb, nt))
            for c, cell in enumerate(mem):
                if not cell:
                    continue
                x = np.mean([cur("win", b)[j] for b, j in cell], axis=0)
                for m in range(nt):
                    v = [x[g1, g2] for g1 in range(3) for g2 in range(4) if a["grid"][g1][g2] == m + 1]
                    wf[c, m] = np.mean(v) if v else 0.0
                if wf[c].sum() > 0:
                    wf[c] /= wf[c].sum()
            self.same(out.window_function_array[i][k, :, :, q], wf, "window functions of " + what)

    def first_average(self, a, args, kws, how):
        """averaging over pairs and times on the way is averaging first"""
        rng, G = self.rng, self.G
        kws = {k: v for k, v in kws.items() if k not in ("A", "blpair_groups")}
        grp, tav = a["avg"] % 3, a["avg"] >= 3
        if grp == 0 and not tav:
            return
        av = dict(time_avg=tav)
        weigh = kws.pop("error_weights", None)
        bs = list(self.pairs)
        rng.shuffle(bs)
        if grp:
            cut = rng.randrange(1, len(bs) + 1)
            av["blpair_groups"] = [[self.U.blp_int(b) for b in g] for g in (bs[:cut], bs[cut:]) if g]
            if grp == 2:
                av["blpair_weights"] = [[float(rng.choice([1, 2, 3])) for _ in g] for g in av["blpair_groups"]]
        if weigh:
            av["error_weights"] = "err"
        if self.o["win"] == "exact":
            if not grp:
                return
            weigh = av.pop("error_weights", None) and None
        one = G.spherical_average(self.u, *args, **av, **kws)
        first = G.average_spectra(self.u, inplace=False, error_field=list(getattr(self.u, "stats_array", {})), **av)
        if weigh:
            kws["error_weights"] = weigh
        if self.o["win"] == "exact":
            kws["blpair_groups"] = [[g[0]] for g in av["blpair_groups"]]
        two = G.spherical_average(first, *args, **kws)
        self.count("averages on the way")
        for n in NAMES:
            x, y = self.arr(one, n), self.arr(two, n)
            if (x is None) != (y is None):
                raise Bad(f"averaging on the way: {n} in one result only")
            if x is not None:
                for s in y:
                    if not np.allclose(x[s], y[s], rtol=1e-8, atol=1e-10 * np.max(np.abs(y[s][np.isfinite(y[s])]), initial=0), equal_nan=True):
                        raise Bad(f"averaging on the way ({av}) gives other {n} than averaging first")
        for n in ("time_avg_array", "time_1_array", "time_2_array", "lst_avg_array", "blpair_array", "Ntpairs", "Nbltpairs"):
            if not np.array_equal(getattr(one, n), getattr(two, n)):
                raise Bad(f"averaging on the way ({av}) gives other {n} than averaging first")

    # ------------------------------------------------------------------ behaviours
    def run(self, traces):
        for tr in traces:
            self.seed += 1
            self.rng = random.Random(self.seed)
            done = []
            for a in tr:
                done.append(a)
                if a["op"] == "skip":
                    continue
                self.count(a["op"])
                try:
                    getattr(self, a["op"])(a)
                    if a["op"] in ("fold", "bin"):
                        self.whole()
                except Bad as exc:
                    self.fail(a, str(exc), done)
                    break
                except Exception as exc:
                    import traceback
                    self.fail(a, "".join(traceback.format_exception(exc))[-1500:], done)
                    break
            if len(self.viol) > 10:
                break
        return dict(violations=self.viol, counts=self.counts, samples=[[a["op"] for a in tr] for tr in traces[:1]])

    def fail(self, a, text, done):
        self.viol.append(dict(clause=a["op"], detail=text, key=a["op"], replay=done))


def work(item):
    seed, traces = item
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Replay(seed).run(traces)


def unequal(chk):
    """pairs that do not have the same times cannot be binned together"""
    from hera_pspec import grouping
    from .. import uvp as U
    for rows in ([(0, 0), (0, 1), (1, 0)], [(0, 0), (0, 1), (1, 0), (1, 2)], [(0, 0), (0, 1), (0, 2), (1, 4)]):
        u = U.build(U.Obj([0], rows, [0]), cosmo=1)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                grouping.spherical_average(u, np.arange(0.2, 3, 0.4), 0.4)
        except Exception:
            continue
        chk.merge([dict(clause="unequal times", key="unequal", detail=f"rows {rows} of different times were binned together", replay=rows)], {}, [])


def run(chk):
    import hera_pspec  # noqa: F401
    q, c = scales()
    seq = lambda x: "<<" + ", ".join(map(str, x)) + ">>"
    traces = core.simulate_traces(chk, "Binning", dict(Q=seq(q), C=seq(c)), 4000 if chk.thorough else 400, 6)
    items = [(chk.seed * 1000 + 41 * i, t) for i, t in enumerate(core.chunks(traces, 32))]
    for res in core.pmap(work, items):
        chk.merge(res["violations"], res["counts"], res["samples"])
    unequal(chk)
    chk.traces(len(traces))
