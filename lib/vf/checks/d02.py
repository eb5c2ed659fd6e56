"""D02: every estimated spectrum is formed from its own visibilities and its own part of the request.

Behaviours of Estimate.tla are runs of PSpecData.pspec over several windows, polarization pairs and baseline-pairs, and
changes of one sample, flag or sample count in between.  The specification says which visibilities every cell is formed
from and which cells a change can reach.  A cell must equal the one obtained when its window, polarization pair and
baseline-pair are requested alone from an untouched object, unnormalized bandpowers with identity weighting must equal an
independent Fourier transform, and only cells in reach may change."""
import contextlib
import copy
import io
import warnings

import numpy as np

from .. import core

NT, NF = 4, 10
BL = [(0, 1), (1, 2), (2, 3)]
LABELS = ["first", "second", "third"]
DTS = [10.0, 12.0, 9.0]
POL = {"xx": -5, "yy": -6}


def near(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if not a.size:
        return True
    s = np.abs(b[np.isfinite(b)]).max(initial=0.0)
    return np.allclose(a, b, rtol=1e-7, atol=1e-10 * s, equal_nan=True)


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


class Replay:
    def __init__(self, seed):
        import hera_pspec as hp
        from .. import uvd
        self.V, self.hp, self.seed = uvd, hp, seed
        self.viol, self.counts = [], {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def bad(self, clause, text, trace):
        if len(self.viol) < 20:
            self.viol.append(dict(clause=clause, detail=text, replay=[str(a["op"]) + str(a["args"]) for a in trace], key=clause))

    # ------------------------------------------------------------------ data
    def make(self, cfg, seed):
        chan = {tup(x) for x in cfg["chan"]}
        tim = {tup(x) for x in cfg["tim"]}
        spot = {tup(x) for x in cfg["spot"]}
        d, s = [], []
        for i in range(3):
            def flags(bl, p, t, n):
                f = np.zeros(n, bool)
                if bl in BL:
                    k = (i, BL.index(bl), p)
                    for ch in range(n):
                        f[ch] = (k, ch) in chan or (k, t) in tim or (k, t, ch) in spot
                return f
            pols = cfg["pols"][str(i)] if isinstance(cfg["pols"], dict) else cfg["pols"][i]
            held = [BL[b] for b in (cfg["bls"][str(i)] if isinstance(cfg["bls"], dict) else cfg["bls"][i])]
            kw = dict(bls=held, pols=pols, ntimes=NT, nfreq=NF, t0=10 * i, autos=(0, 1, 2, 3), dt=DTS[i], order=[None, "bl"][seed % 2])
            u = self.V.build(seed=seed * 3 + i, flags=flags, **kw)
            for n in range(u.Nblts):  # integration times of their own for every baseline and time
                u.integration_time[n] *= self.factor(u, n)
            d.append(u)
            if cfg["std"]:
                v = self.V.build(seed=seed * 3 + i + 77, **kw)
                v.data_array[:] = 1 + np.abs(v.data_array.real)
                s.append(v)
        self.d, self.s = d, s or None
        self.renew()
        self.pols = [[{-5: "xx", -6: "yy"}[int(p)] for p in u.polarization_array] for u in d]

    @staticmethod
    def factor(u, n):
        return 1 + 0.1 * (u.ant_1_array[n] % 4) + 0.03 * list(np.unique(u.time_array)).index(u.time_array[n])

    def renew(self):
        """an object on the present data; also after a failed run: what that leaves behind is not specified"""
        self.ds = self.hp.PSpecData(dsets=self.d, dsets_std=self.s, labels=list(LABELS))

    def fresh(self, d=None):
        d = d or self.d
        return self.hp.PSpecData(dsets=copy.deepcopy(d), dsets_std=copy.deepcopy(self.s), labels=list(LABELS))

    @staticmethod
    def bls(r):
        def bl(m):
            return BL[m[0]][::-1] if m[1] else BL[m[0]]
        return [bl(p[0]) for p in r["blps"]], [bl(p[1]) for p in r["blps"]]

    def call(self, ds, r, wins=None, pols=None, pairs=None):
        """the estimate, in whole or in part"""
        wins = range(len(r["windows"])) if wins is None else wins
        b1, b2 = self.bls(r)
        pairs = range(len(b1)) if pairs is None else pairs
        pols = r["pols"] if pols is None else pols
        ds.primary_beam = self.V.beam("gauss") if r["beam"] else None
        rp = None
        if r["wt"] == "dayenu":
            rp = {}
            for i in range(3):
                for n, bl in enumerate(BL):
                    for b in (bl, bl[::-1]):
                        for m, p in enumerate(POL):
                            rp[(i,) + b + (p,)] = dict(filter_centers=[0.0], filter_factors=[1e-3],
                                                       filter_half_widths=[100e-9 * (1 + i + n + 2 * m)])
        cov = r["cov"]
        kw = dict(store_cov=True, cov_model=cov) if cov != "no" else {}
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return ds.pspec([b1[i] for i in pairs], [b2[i] for i in pairs], tuple(r["dsets"]), [tuple(q) for q in pols],
                            spw_ranges=[tuple(r["windows"][i]) for i in wins], n_dlys=[r["nd"][i] or None for i in wins],
                            filter_extensions=[tuple(r["exts"][i]) for i in wins], input_data_weight=r["wt"], norm=r["norm"],
                            taper=r["taper"], symmetric_taper=r["sym"], return_q=r["retq"], r_params=rp, verbose=False,
                            allow_fft=r["fft"] and all(n == 0 for n in r["nd"]), **kw)

    @staticmethod
    def cell(u, i, j, n=slice(None)):
        out = dict(data=u.data_array[i][n, ..., j], wgt=u.wgt_array[i][n, ..., j], integration=u.integration_array[i][n, ..., j],
                   nsample=u.nsample_array[i][n, ..., j], window=u.window_function_array[i][n, ..., j])
        if hasattr(u, "cov_array_real"):
            out["cov"] = u.cov_array_real[i][n, ..., j]
            out["covi"] = u.cov_array_imag[i][n, ..., j]
        return out

    # ------------------------------------------------------------------ a run
    def run_request(self, r, res, done):
        before = [self.V.state(u) for u in self.d + (self.s or [])]
        err = u = None
        try:
            u = self.call(self.ds, r)
        except (ValueError, AssertionError, NotImplementedError, np.linalg.LinAlgError) as exc:
            err = exc
        if before != [self.V.state(x) for x in self.d + (self.s or [])]:
            return self.bad("inputs", f"the run {r} changed the visibilities", done)
        if not res["ok"]:
            if err is None:
                self.bad("refusal", f"no polarization pair of {r['pols']} is held by both data sets, yet a result is returned", done)
            self.count("refused")
            self.renew()
            return None
        alone = {}
        part_err = None
        nb = len(r["blps"])
        for i in range(len(r["windows"])):
            for j, q in enumerate(res["pols"]):
                for k in range(nb):
                    try:
                        alone[i, j, k] = self.call(self.fresh(), r, wins=[i], pols=[q], pairs=[k])
                    except (ValueError, AssertionError, NotImplementedError, np.linalg.LinAlgError) as exc:
                        part_err = exc
                        break
        if err is not None or part_err is not None:
            if type(err) is not type(part_err) or not res["may"]:
                self.bad("refusal", f"{r}: together {err!r}, separately {part_err!r}, refusal allowed: {res['may']}", done)
            self.count("failing: " + repr(err)[:50])
            self.renew()
            return None
        self.count("runs")
        if not self.header(r, res, u, done):
            return None
        for (i, j, k), a in alone.items():
            rows = slice(k * NT, (k + 1) * NT)
            whole, single = self.cell(u, i, j, rows), self.cell(a, 0, 0)
            what = f"window {r['windows'][i]} polarizations {res['pols'][j]} pair {k + 1} of {r}"
            for f in single:
                self.count("cells compared")
                if f not in whole or not near(whole[f], single[f]):
                    return self.bad("alone-" + f, f"{what}: {f} is {whole.get(f)!r}, requested alone {single[f]!r}"[:1500], done)
            for f in ("time_1_array", "time_2_array", "lst_1_array", "lst_2_array"):
                if not np.array_equal(getattr(u, f)[rows], getattr(a, f)):
                    return self.bad("alone-" + f, f"{what}: {f} differs from the one requested alone", done)
            if not near(u.get_dlys(i), a.get_dlys(0)) or not near(u.scalar_array[i][j], a.scalar_array[0][0]) or \
                    not np.array_equal(u.freq_array[u.spw_to_freq_indices(i)], a.freq_array):
                return self.bad("alone-axes", f"{what}: delays, frequencies or scalar differ from those requested alone", done)
            if r["wt"] == "identity" and r["retq"] and (r["nd"][i] in (0, len(a.freq_array))) and r["exts"][i] == [0, 0]:
                q = self.fourier(r, res, i, j, k)
                self.count("independent transforms")
                if not near(whole["data"], q):
                    return self.bad("visibilities", f"{what}: bandpowers {whole['data'][0]}, transform of the visibilities {q[0]}", done)
            if not self.weights(r, res, i, j, k, whole, what, done):
                return None
        return u

    def key(self, r, res, j, k, which):
        """data set, baseline as named, polarization of one member"""
        b = self.bls(r)[which][k]
        return r["dsets"][which], b, res["pols"][j][which]

    def samples(self, key):
        """visibilities, weights, sample counts [time, channel], straight from the arrays"""
        i, b, p = key
        u = self.d[i]
        con = b not in BL
        a1, a2 = b[::-1] if con else b
        inds = np.where((u.ant_1_array == a1) & (u.ant_2_array == a2))[0]
        inds = inds[np.argsort(u.time_array[inds])]
        m = self.pols[i].index(p)
        x = u.data_array[inds, :, m]
        return (x.conj() if con else x), ~u.flag_array[inds, :, m], u.nsample_array[inds, :, m], u.integration_time[inds]

    def fourier(self, r, res, i, j, k):
        import uvtools.dspec as dspec
        w = slice(*r["windows"][i])
        ft = []
        for which in (0, 1):
            x, f = self.samples(self.key(r, res, j, k, which))[:2]
            x, f = x[:, w], f[:, w]
            n = x.shape[1]
            live = f.any(axis=0)
            t = dspec.gen_window(r["taper"], n) if r["taper"] != "none" else np.ones(n)
            y = x * t * live
            g = np.array([(y * np.exp(-2j * np.pi * (a - n // 2) * np.arange(n) / n)).sum(axis=1) for a in range(n)])
            ft.append(g.T)
        return 0.5 * ft[0].conj() * ft[1]

    def weights(self, r, res, i, j, k, cell, what, done):
        """weights and integration time come from the flags and sample counts of the two members"""
        w, e = r["windows"][i], r["exts"][i]
        sl = slice(w[0] - min(e[0], w[0]), w[1] + min(e[1], NF - w[1]))
        integ = []
        for which in (0, 1):
            key = self.key(r, res, j, k, which)
            _, f, ns, dt = self.samples(key)
            f, ns = f[:, sl].astype(float), ns[:, sl]
            if not np.array_equal(cell["wgt"][:, :, which], f):
                self.bad("weights", f"{what}: weights of member {which + 1} are not those of its flags", done)
                return False
            integ.append((f * ns).sum(axis=1) / np.maximum(f.sum(axis=1), 1) * dt)
        a, b = integ
        with np.errstate(all="ignore"):
            want = np.where((a > 0) & (b > 0), 2 / (1 / a + 1 / b), 0.0)
        if not near(cell["integration"], want):
            self.bad("integration", f"{what}: integration {cell['integration']}, from the sample counts {want}", done)
            return False
        return True

    def header(self, r, res, u, done):
        b1, b2 = self.bls(r)
        rows = res["rows"]
        import hera_pspec.uvpspec_utils as uu
        want = [uu.polpair_tuple2int(tuple(POL[x] for x in q)) for q in res["pols"]]
        got = [int(x) for x in u.polpair_array]
        if got != want:
            self.bad("rows", f"polarization pairs {got}, requested {want}", done)
            return False
        if len(u.time_1_array) != len(rows):
            self.bad("rows", f"{len(u.time_1_array)} rows, {len(rows)} requested", done)
            return False
        for n, (k, t) in enumerate(rows):
            blp = u.antnums_to_blpair((b1[k - 1], b2[k - 1]))
            d1, d2 = (self.d[i] for i in r["dsets"])
            o1, o2 = (np.unique(d.time_array) for d in (d1, d2))
            l1, l2 = (np.array([d.lst_array[d.time_array == x][0] for x in o]) for d, o in ((d1, o1), (d2, o2)))
            if int(u.blpair_array[n]) != blp or u.time_1_array[n] != o1[t] or u.time_2_array[n] != o2[t] or \
                    u.lst_1_array[n] != l1[t] or u.lst_2_array[n] != l2[t]:
                self.bad("rows", f"row {n} of {r} carries {u.blpair_array[n]}, {u.time_1_array[n]}, {u.time_2_array[n]}, "
                         f"{u.lst_1_array[n]}, {u.lst_2_array[n]}; specified pair {b1[k - 1], b2[k - 1]} integration {t}", done)
                return False
            if not np.isclose(u.time_avg_array[n], (o1[t] + o2[t]) / 2, rtol=0, atol=1e-7) or \
                    not np.isclose(np.exp(1j * u.lst_avg_array[n]), np.exp(1j * l1[t]) + np.exp(1j * l2[t]), rtol=0, atol=2.1) or \
                    abs(np.angle(np.exp(1j * (2 * u.lst_avg_array[n] - l1[t] - l2[t])))) > 1e-7:
                self.bad("rows", f"row {n}: mean time or LST is not that of its two members", done)
                return False
        labs = [str(x) for x in u.labels]
        pair = [labs[int(u.label_1_array[0, 0, 0])], labs[int(u.label_2_array[0, 0, 0])]]
        if pair != [LABELS[i] for i in r["dsets"]] or len(np.unique(u.label_1_array)) != 1 or len(np.unique(u.label_2_array)) != 1:
            self.bad("labels", f"labels {pair}, data sets {[LABELS[i] for i in r['dsets']]}", done)
            return False
        for i, w in enumerate(r["windows"]):
            f = u.freq_array[u.spw_to_freq_indices(i)]
            if not np.array_equal(f, self.d[r["dsets"][0]].freq_array[w[0]:w[1]]):
                self.bad("rows", f"frequencies of window {w} are {f}", done)
                return False
        return True

    # ------------------------------------------------------------------ a change of one sample
    def diff(self, a, b, r, res_pols, fields):
        out = set()
        for i in range(len(r["windows"])):
            for j in range(len(res_pols)):
                x, y = self.cell(a, i, j), self.cell(b, i, j)
                for f in fields:
                    if x[f].shape != y[f].shape:
                        return None
                    s = np.abs(y[f][np.isfinite(y[f])]).max(initial=0.0)
                    c = ~np.isclose(x[f], y[f], rtol=1e-7, atol=1e-10 * s, equal_nan=True)
                    for n in np.where(c.reshape(len(c), -1).any(axis=1))[0]:
                        out.add((i + 1, int(n) + 1, j + 1))
        return out

    def perturb(self, op, a, res, done):
        i, b, p = a["k"]
        u = self.d[i]
        bl = BL[b]
        inds = np.where((u.ant_1_array == bl[0]) & (u.ant_2_array == bl[1]))[0]
        inds = inds[np.argsort(u.time_array[inds])]
        ix = (inds[a["t"]], a["ch"], self.pols[i].index(p))
        if op == "data":
            u.data_array[ix] += 3.0 - 2.0j
        elif op == "nsample":
            u.nsample_array[ix] += 5
        else:
            u.flag_array[ix] = True
        self.renew()
        r = self.req
        try:
            new = self.call(self.ds, r)
        except (ValueError, AssertionError, NotImplementedError, np.linalg.LinAlgError):
            self.live = None
            return
        old, self.live = self.live, new
        what = f"{op} of {LABELS[i]} {bl} {p}, time {a['t']}, channel {a['ch']} changed, request {r}: "
        spec = self.diff(new, old, r, self.res["pols"], ["data"])
        rest = self.diff(new, old, r, self.res["pols"], ["wgt", "integration"])
        reach = {tup(x) for x in res["reach"]}
        self.count("changes of " + op)
        self.count("changed cells", len(spec | rest))
        if op == "data":
            if not spec <= reach or rest:
                return self.bad("independence", what + f"cells {sorted(spec - reach)[:5]} {sorted(rest)[:5]} changed, not formed from it", done)
            if not {tup(x) for x in res["must"]} <= spec:
                return self.bad("formed-from", what + f"cells {sorted({tup(x) for x in res['must']} - spec)[:5]} should have changed", done)
            if res["ignored"]:
                self.count("flagged samples changed")
                hit = spec & {tup(x) for x in res["counting"]}
                if hit:
                    return self.bad("flagged", what + f"the sample is flagged, but cells {sorted(hit)[:5]} changed", done)
        elif op == "nsample":
            if spec or not rest <= reach:
                return self.bad("independence", what + f"spectra {sorted(spec)[:5]}, integrations {sorted(rest - reach)[:5]} changed", done)
            if not reach <= rest:
                self.count("counts without effect")
        else:
            if not rest <= reach or not reach <= rest:
                return self.bad("independence", what + f"weights {sorted(rest ^ reach)[:5]} changed or did not", done)
            if not spec <= {tup(x) for x in res["data"]}:
                return self.bad("independence", what + f"spectra {sorted(spec - {tup(x) for x in res['data']})[:5]} changed", done)

    def run(self, traces):
        for n, tr in enumerate(traces):
            done = []
            self.live = self.req = None
            for j in tr:
                done.append(j)
                nv = len(self.viol)
                if j["op"] == "make":
                    self.make(j["args"]["cfg"], self.seed * 1009 + n)
                elif j["op"] == "run":
                    self.req, self.res = j["args"], j["res"]
                    self.live = self.run_request(j["args"], j["res"], done)
                elif self.live is not None:
                    self.perturb(j["op"], j["args"], j["res"], done)
                if len(self.viol) > nv:
                    break
        return dict(violations=self.viol, counts=self.counts, samples=[[a["op"] for a in tr] for tr in traces[:1]])


def work(item):
    seed, traces = item
    with contextlib.redirect_stdout(io.StringIO()):
        return Replay(seed).run(traces)


def run(chk):
    import hera_pspec  # noqa: F401
    from .. import uvd
    traces = core.simulate_traces(chk, "Estimate", {}, 2000 if chk.thorough else 160, 14)
    uvd.build(bls=BL, pols=["xx"], ntimes=NT, nfreq=NF, t0=0, autos=(0,))  # tables of the time system, shared
    items = [(chk.seed * 100 + i, c) for i, c in enumerate(core.chunks(traces, 32))]
    for res in core.pmap(work, items):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
