"""W01: exact window functions belong to their own channels, beams and baseline length.

Behaviours of Windows.tla build power-spectrum objects, compute their exact window functions (from beam files of each
polarization or one given beam, for all or some windows, in place or returned), narrow and store them; and load, cut and
pair beams, of which window functions are computed directly, averaged spherically and written to files.  The
specification says which requests are refused and, for every cell, from which channels, beams, baselines and settings
its window function is formed; here each is compared with an independent computation of the documented formula."""
import contextlib
import copy
import hashlib
import io
import os
import random
import shutil
import tempfile
import warnings

import h5py
import numpy as np

from .. import core

WIDTH = 0.020  # half width of the grid of transverse modes
BAND, F0, DF = 330, 109e6, 0.1e6
NGRID = 21
MAPSIZE = {"one": 0.4, "two": 0.5}
VEC = {1: (1, 2), 2: (2, 3), 3: (3, 4), 4: (1, 3), 5: (2, 4)}
POLS = ("xx", "yy", "pI")


def band():
    return F0 + DF * np.arange(BAND)


_BEAMS = {}


def beam_data(pol, mapsize):
    """transform of a beam: even, different for every channel and polarization"""
    if (pol, mapsize) not in _BEAMS:
        rng = np.random.default_rng(POLS.index(pol) + 10)
        q = (np.arange(NGRID) - NGRID // 2) / (2 * mapsize)
        a, b, c = rng.uniform(2.0, 6.0, BAND), rng.uniform(2.0, 6.0, BAND), rng.uniform(-0.03, 0.03, BAND)
        x, y = q[:, None], q[None, :]
        _BEAMS[pol, mapsize] = np.array([np.exp(-(x**2) / a[i] ** 2 - y**2 / b[i] ** 2 - c[i] * x * y) for i in range(BAND)])
        _BEAMS[pol, mapsize] *= rng.uniform(0.7, 1.3, BAND)[:, None, None]
    return _BEAMS[pol, mapsize]


# ------------------------------------------------------------------ the documented formula
class Ambiguous(Exception):
    pass


def rings(values, edges):
    """bin numbers of values (-1: outside); refuse values at an edge, where rounding decides"""
    n = np.searchsorted(edges, values, side="right") - 1
    n[(n < 0) | (n >= len(edges) - 1)] = -1
    for e in edges:
        if np.any(np.abs(values - e) < 1e-10 * np.abs(edges).max()):
            raise Ambiguous
    return n


def edges_of(bins):
    d = np.diff(bins).mean()
    return bins.min() - d / 2 + d * np.arange(len(bins) + 1)


def bilinear(x, f, xi):
    """values of f, given on the grid x by x, on the grid xi by xi; zero outside"""
    i = np.clip(np.searchsorted(x, xi, side="right") - 1, 0, len(x) - 2)
    w = (xi - x[i]) / (x[i + 1] - x[i])
    row = f[i] * (1 - w)[:, None] + f[i + 1] * w[:, None]
    g = row[:, i] * (1 - w)[None, :] + row[:, i + 1] * w[None, :]
    out = (xi < x[0]) | (xi > x[-1])
    g[out] = 0
    g[:, out] = 0
    return g


def taper_of(name, n):
    from uvtools import dspec
    return dspec.gen_window(name, n)


def delays_of(freqs):
    return np.fft.fftshift(np.fft.fftfreq(len(freqs), d=np.median(np.diff(freqs))))


def cylindrical(freqs, fts, mapsize, length, st, kperp_bins, kpara_bins):
    """the window functions of all delays; two variants where the Nyquist mode leaves the choice

    fts: transform of the first and of the second beam, (channels, n, n)"""
    cosmo, h, n = st["cosmo"], st["h"], len(freqs)
    z0 = cosmo.f2z(np.mean(freqs))
    kc = cosmo.bl_to_kperp(z0, little_h=h) * length / np.sqrt(2.0)
    dk = np.pi / mapsize / cosmo.dRperp_dtheta(cosmo.f2z(freqs.max()), little_h=h)
    kg = np.arange(kc - WIDTH, kc + WIDTH, step=dk)
    norm = np.hypot(kg[:, None], kg[None, :])
    q = (np.arange(NGRID) - NGRID // 2) / (2 * mapsize)
    from hera_pspec.conversions import units
    modes = []
    for ft in fts:
        a = np.zeros((len(kg), len(kg), n))
        for i, f in enumerate(freqs):
            k = 2 * np.pi / cosmo.DM(cosmo.f2z(f), little_h=h) * (f * length / units.c / np.sqrt(2.0) - q)
            a[..., i] = bilinear(k[::-1], ft[i][::-1, ::-1], kg)
        a = a * (taper_of(st["taper"], n) if st["taper"] is not None else 1.0)
        modes.append(np.fft.fftshift(np.fft.fft(np.fft.fftshift(a, axes=-1), axis=-1), axes=-1))
    power = (np.conj(modes[1]) * modes[0]).real
    ring = rings(norm.ravel(), edges_of(kperp_bins))
    nper = len(kperp_bins)
    cnt = np.bincount(ring[ring >= 0], minlength=nper)
    w1 = np.zeros((nper, n))
    for i in range(n):
        s = np.bincount(ring[ring >= 0], weights=power[..., i].ravel()[ring >= 0], minlength=nper)
        w1[:, i] = np.divide(s, cnt, out=np.zeros(nper), where=cnt > 0)
    kper = np.divide(np.bincount(ring[ring >= 0], weights=norm.ravel()[ring >= 0], minlength=nper), cnt, out=np.zeros(nper), where=cnt > 0)
    alpha = cosmo.dRpara_df(z0, little_h=h, ghz=False)
    eta = np.fft.fftshift(np.fft.fftfreq(n)) / np.median(np.diff(freqs))

    def at(tau):
        b = rings(np.abs(2 * np.pi / alpha * (eta + tau)), edges_of(kpara_bins))
        w = np.zeros((nper, len(kpara_bins)))
        for m in set(b) - {-1}:
            w[:, m] = w1[:, b == m].mean(axis=1)
        return w / w.sum() if w.sum() != 0 else w
    direct = np.array([at(t) for t in delays_of(freqs)])
    mirror = direct.copy()
    for t in range(n // 2 + 1, n):
        mirror[t] = direct[(n - t) if n % 2 == 0 else n - 1 - t]
    return direct, mirror, kper


def spherical(cyl, freqs, st, lens, weights, kper, kpar, centers):
    cosmo, h = st["cosmo"], st["h"]
    z0 = cosmo.f2z(np.mean(freqs))
    kmag = np.hypot((cosmo.bl_to_kperp(z0, little_h=h) * np.asarray(lens))[:, None],
                    cosmo.tau_to_kpara(z0, little_h=h) * delays_of(freqs))
    ktot = np.hypot(kper[:, None], kpar)
    e = edges_of(centers)
    out_bin, in_bin = rings(kmag.ravel(), e).reshape(kmag.shape), rings(ktot.ravel(), e).reshape(ktot.shape)
    res, wk = np.zeros((len(centers), len(centers))), np.zeros(len(centers))
    for m in range(len(centers)):
        sel = out_bin == m
        if not sel.any():
            continue
        wk[m] = kmag[sel].mean()
        w = sel * np.asarray(weights, float)[:, None]
        mean = (cyl * w[:, :, None, None]).sum(axis=(0, 1)) / w.sum()
        row = np.array([mean[in_bin == j].mean() if (in_bin == j).any() else 0.0 for j in range(len(centers))])
        res[m] = row / row.sum() if row.sum() != 0 else row
    return res, wk


def close(a, b, tol=1e-7):
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol * max(1e-30, np.abs(b).max()))


def digest(p):
    if not os.path.exists(p):
        return None
    with open(p, "rb") as fh:
        return hashlib.md5(fh.read()).hexdigest()


class Replay:
    def __init__(self, seed):
        from hera_pspec import conversions, uvpspec, uvwindow
        from .. import uvp
        self.W, self.U, self.S = uvwindow, uvp, uvpspec
        self.cosmo = uvp.COSMO
        self.rng = random.Random(seed)
        self.viol, self.counts, self.cache = [], {}, {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def bad(self, clause, text, trace):
        if len(self.viol) < 10:
            self.viol.append(dict(clause=clause, detail=text[:1800], key=clause,
                                  replay=[{k: v for k, v in a.items() if k in ("op", "args", "ok")} for a in trace[-10:]]))

    # ------------------------------------------------------------------ building
    def files(self, tmp):
        for root, pols, mp in (("all", POLS, "one"), ("some", ("xx", "pI"), "one"), ("two", POLS, "two")):
            for p in pols:
                with h5py.File(os.path.join(tmp, f"FT_{root}_{p}.hdf5"), "w") as f:
                    f["mapsize"] = [MAPSIZE[mp]]
                    f["freq"] = band()
                    f["FT_beam"] = beam_data(p, MAPSIZE[mp])

    def setting(self, s):
        return dict(taper=s["taper"], h=s["h"], cosmo=self.cosmo[s["cosmo"]])

    def length(self, bl):
        return float(np.linalg.norm(self.U.BLS[VEC[bl]]))

    def build(self, o):
        rows = []
        for b in sorted(o["pairs"]):
            rows += [(b, t) for t in random.Random(b + 7 * len(o["pairs"])).choice([(0, 1), (0,), (4, 1), (2, 3)])]
        self.rng.shuffle(rows)
        src = self.U.Obj(o["spws"], rows, o["pols"], rowlist=rows, polarr=list(o["pols"]), folded=o["folded"],
                         win=self.rng.choice([None, "yes"]))
        u = self.U.build(src)
        u.taper = o["set"]["taper"]
        u.norm_units = ("h^-3 " if o["set"]["h"] else "") + "Mpc^3"
        u.cosmo = copy.deepcopy(self.cosmo[o["set"]["cosmo"]])
        return u

    # ------------------------------------------------------------------ expectation
    def expect(self, freqs, beams, mapsize, lens, st, kper, kpar):
        key = (freqs.tobytes(), tuple(beams), mapsize, tuple(lens), st["taper"], st["h"], st["cosmo"].Om_L, kper.tobytes(), kpar.tobytes())
        if key not in self.cache:
            c = np.rint((freqs - F0) / DF).astype(int)
            try:
                self.cache[key] = cylindrical(freqs, [beam_data(p, mapsize)[c] for p in beams], mapsize,
                                              float(np.mean([self.length(x) for x in lens])), st, kper, kpar)
            except Ambiguous:
                self.cache[key] = None
        return self.cache[key]

    def same(self, got, want):
        """each delay by either variant"""
        direct, mirror, _ = want
        return got.shape == direct.shape and all(close(g, a) or close(g, b) for g, a, b in zip(got, direct, mirror))

    def check_bins(self, kper, kpar, lens, freqs, st):
        z0 = st["cosmo"].f2z(np.mean(freqs))
        ek, ep = edges_of(kper), edges_of(kpar)
        k = [st["cosmo"].bl_to_kperp(z0, little_h=st["h"]) * x for x in lens]
        top = st["cosmo"].tau_to_kpara(z0, little_h=st["h"]) * np.abs(delays_of(freqs)).max()
        return (len(kper) > 1 and len(kpar) > 1 and np.allclose(np.diff(kper), np.diff(kper)[0]) and np.allclose(np.diff(kpar), np.diff(kpar)[0])
                and ek[0] > 0 and ep[0] > 0 and ek[0] <= min(k) and max(k) <= ek[-1] and top <= ep[-1])

    def check_cells(self, u, o, cells, kperp, kpara, wf, trace):
        """cells: (window, pair, polarization pair, term) of the specification"""
        U = self.U
        spws, pols = list(o["spws"]), list(o["pols"])
        todo = sorted({c[0] for c in cells})
        if sorted(wf) != sorted(spws.index(s) for s in todo):
            return self.bad("cells", f"windows {sorted(wf)} of {spws}, asked {todo}", trace)
        st = None
        for s, b, p, term in cells:
            i, j = spws.index(s), pols.index(p)
            st = self.setting(term["set"])
            rows = u.blpair_to_indices(U.blp_int(b))
            got, kp, kl = wf[i][rows][..., j], np.asarray(kperp[i])[:, j], np.asarray(kpara[i])[:, j]
            freqs = U.freqs(term["chan"])
            if not term["bls"]:
                self.count("cells not redundant")
                if np.any(got != 0):
                    self.bad("unpaired", f"window functions for pair {b} of different baselines", trace)
                continue
            if not self.check_bins(kp, kl, [self.length(x) for x in term["bls"]], freqs, st):
                return self.bad("bins", f"window {s} pair {b}: bins {kp[[0, -1]]} ({len(kp)}), {kl[[0, -1]]} ({len(kl)})", trace)
            want = self.expect(freqs, term["beams"], MAPSIZE["one"], sorted(term["bls"]), st, kp, kl)
            if want is None:
                self.count("ambiguous")
                continue
            self.count("cells")
            for g in got:
                if not self.same(g, want):
                    return self.bad("value", f"window {s} (index {i}) pair {b} pols {p} (beams {term['beams']}): sum {g.sum()}, "
                                    f"largest difference {np.abs(g - want[1]).max() if g.shape == want[1].shape else g.shape}", trace)
                if not np.allclose(g.sum(axis=(1, 2)), 1):
                    return self.bad("normalization", f"window {s} pair {b}: sums {g.sum(axis=(1, 2))}", trace)

    def unchanged(self, u, before, trace, what):
        if not (u == before):
            self.bad("unchanged", f"{what} changed the object", trace)

    # ------------------------------------------------------------------ steps
    def run(self, traces):
        tmp = tempfile.mkdtemp(prefix="w01")
        try:
            self.files(tmp)
            for t in traces:
                out = os.path.join(tmp, "out.h5")
                if os.path.exists(out):
                    os.remove(out)
                self.trace(t, tmp, out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def trace(self, t, tmp, out):
        u, beams, o = None, [None, None], None
        for n, a in enumerate(t):
            done = t[:n + 1]
            self.count(a["op"] + ("" if a["ok"] else " refused"))
            nv = len(self.viol)
            if a["op"] == "fresh":
                u = self.build(a["obj"])
            elif a["op"] == "exact":
                self.exact(u, o, a, tmp, done)
            elif a["op"] == "narrow":
                new = a["obj"]
                kw = {}
                if a["args"] == "spw":
                    kw["spws"] = [list(o["spws"]).index(s) for s in new["spws"]]
                elif a["args"] == "pol":
                    kw["polpairs"] = [self.U.POLI[p] for p in new["pols"]]
                else:
                    kw["blpairs"] = [self.U.blp_int(b) for b in sorted(new["pairs"])]
                u.select(**kw)
            elif a["op"] == "reread":
                f = os.path.join(tmp, "u.h5")
                self.call(u.write_hdf5, f, overwrite=True)
                u = self.S.UVPSpec()
                u.read_hdf5(f)
                u.cosmo = copy.deepcopy(self.cosmo[a["obj"]["set"]["cosmo"]])
            elif a["op"] in ("load", "cut"):
                self.beam(beams, a, tmp, done)
            else:
                self.direct(beams, a, out, done)
            o = a["obj"]
            if u is not None and len(self.viol) == nv and a["op"] in ("exact", "narrow", "reread"):
                if bool(u.exact_windows) != o["exact"]:
                    self.bad("flag", f"exact_windows {u.exact_windows}", done)
                elif o["exact"]:
                    self.check_cells(u, o, o["wf"], u.window_function_kperp, u.window_function_kpara, u.window_function_array, done)
            if len(self.viol) > nv:
                return

    def call(self, f, *args, **kw):
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return f(*args, **kw)

    def exact(self, u, o, a, tmp, trace):
        r, src = a["args"], a["args"]["src"]
        if src["kind"] == "files":
            ft = os.path.join(tmp, "FT_" + src["pol"])
            if self.rng.random() < 0.3:
                from pathlib import Path
                ft = Path(ft)
        elif src["kind"] == "object":
            ft = self.W.FTBeam(beam_data(src["pol"], MAPSIZE["one"]), src["pol"], band(), MAPSIZE["one"])
        else:
            ft = None
        idx = sorted(list(o["spws"]).index(s) for s in r["spws"])
        spws = None if not idx else idx[0] if len(idx) == 1 and self.rng.random() < 0.5 else np.array(idx) if self.rng.random() < 0.3 else idx
        before = copy.deepcopy(u)
        kept = copy.deepcopy(ft)
        try:
            res = self.call(u.get_exact_window_functions, ftbeam=ft, spw_array=spws, inplace=r["inplace"], verbose=self.rng.random() < 0.2)
        except Exception as e:
            if a["ok"]:
                self.bad("refused", f"{type(e).__name__}: {e}", trace)
            return self.unchanged(u, before, trace, "a refused request")
        if not a["ok"]:
            return self.bad("accepted", f"window functions computed from {src} for windows {o['spws']}, folded {o['folded']}", trace)
        if src["kind"] == "object" and not (np.array_equal(ft.ft_beam, kept.ft_beam) and np.array_equal(ft.freq_array, kept.freq_array)):
            return self.bad("beam", "the given beam was changed", trace)
        if a["out"]:
            self.unchanged(u, before, trace, "computing window functions without storing them")
            if res is None or len(res) != 3:
                return self.bad("returned", f"{type(res)}", trace)
            self.check_cells(u, o, a["out"], *res, trace)
        else:
            for p in u._all_params:  # nothing else is touched
                if p in ("window_function_array", "window_function_kperp", "window_function_kpara", "exact_windows", "history"):
                    continue
                if not u.__eq__(before, params=[p]):
                    return self.bad("unchanged", f"{p} changed", trace)

    def beam(self, beams, a, tmp, trace):
        r = a["args"]
        i = r["i"] - 1
        if a["op"] == "load":
            f = os.path.join(tmp, f"FT_{ {'one': 'all', 'two': 'two'}[r['map']] }_{r['pol']}.hdf5")
            rg = (r["a"], r["a"] + r["n"]) if r["cut"] else None
            if rg and self.rng.random() < 0.4:
                rg = np.array(rg)
            try:
                b = self.W.FTBeam.from_file(f, spw_range=rg)
            except ValueError as e:
                return self.bad("refused", f"{e}", trace) if a["ok"] else None
            if not a["ok"]:
                return self.bad("accepted", f"channels {rg}", trace)
            beams[i] = b
        else:
            b = beams[i]
            old = (b.ft_beam.copy(), b.freq_array.copy())
            try:
                b.update_spw((r["a"], r["a"] + r["n"]))
            except ValueError as e:
                if a["ok"]:
                    return self.bad("refused", f"{e}", trace)
                if not (np.array_equal(old[0], b.ft_beam) and np.array_equal(old[1], b.freq_array)):
                    self.bad("unchanged", "a refused cut changed the beam", trace)
                return
            if not a["ok"]:
                return self.bad("accepted", f"channels {r['a']} + {r['n']} of {len(old[1])}", trace)
        s = a["beam"][i]
        ch = slice(s["lo"], s["lo"] + s["n"])
        if not (b.pol == s["pol"] and b.mapsize == MAPSIZE[s["map"]] and np.array_equal(b.freq_array, band()[ch])
                and np.array_equal(b.ft_beam, beam_data(s["pol"], MAPSIZE[s["map"]])[ch])):
            self.bad("beam", f"beam {i + 1} is not {s}", trace)

    def direct(self, beams, a, out, trace):
        r, st = a["args"], self.setting(a["args"]["set"])
        lens = [self.length(x) for x in sorted(r["lens"])]
        if self.rng.random() < 0.5:
            lens = lens[::-1]
        dig = digest(out)
        taper = st["taper"] if st["taper"] != "none" or self.rng.random() < 0.5 else None
        weights = [self.rng.choice([1.0, 2.0, 5.0, 0.5]) for _ in lens] if r["how"] == "weights" else None
        kept = [(b.ft_beam.copy(), b.freq_array.copy()) for b in beams]
        try:
            w = self.W.UVWindow(beams[0] if r["one"] else list(beams), taper=taper, little_h=st["h"], cosmo=st["cosmo"])
            res = self.call(self.ask, w, a["op"], r, lens, weights, out)
        except (ValueError, AttributeError, OSError) as e:
            if a["ok"]:
                return self.bad("refused", f"{type(e).__name__}: {e}", trace)
            if digest(out) != dig:
                self.bad("file", f"a refused request changed the file ({type(e).__name__}: {e})", trace)
            return
        if any(not (np.array_equal(x, b.ft_beam) and np.array_equal(f, b.freq_array)) for (x, f), b in zip(kept, beams)):
            return self.bad("beam", "the beams were changed", trace)
        if not a["ok"]:
            return self.bad("accepted", f"{a['op']} {r['how']}", trace)
        if a["op"] != "store" and digest(out) != dig:
            return self.bad("file", "the file changed", trace)
        s = a["beam"][0]
        freqs = band()[s["lo"]:s["lo"] + s["n"]]
        ms = MAPSIZE[s["map"]]
        pols = [s["pol"], s["pol"] if r["one"] else a["beam"][1]["pol"]]
        kper, kpar = np.asarray(res["kper"]), np.asarray(res["kpar"])
        if not self.check_bins(kper, kpar, lens, freqs, st):
            return self.bad("bins", f"bins {kper[[0, -1]]} ({len(kper)}), {kpar[[0, -1]]} ({len(kpar)}) for lengths {lens}", trace)
        want = [self.expect(freqs, pols, ms, [x], st, kper, kpar) for x in sorted(r["lens"], key=lambda x: lens.index(self.length(x)))]
        if any(x is None for x in want):
            return self.count("ambiguous")
        if a["op"] == "cyl":
            if not self.same(res["wf"], want[0]):
                return self.bad("value", f"{r}: window function of {pols} differs", trace)
            if r["how"] == "weighted" and not close(res["kmean"], want[0][2]):
                return self.bad("value", "mean transverse modes differ", trace)
        elif a["op"] == "store":
            ws = weights or [1.0] * len(lens)
            if not (np.allclose(res["lens"], lens) and np.allclose(res["weights"], ws) and len(res["wf"]) == len(lens)
                    and np.allclose(res["dly"], delays_of(freqs))):
                return self.bad("file", f"lengths {res['lens']} weights {res['weights']}", trace)
            for g, x, k in zip(res["wf"], want, ws):
                if not self.same(g / k, x):
                    return self.bad("file", f"stored window functions of {lens} differ", trace)
            at = res["attrs"]
            if not (np.isclose(at["avg_nu"], freqs.mean()) and at["nfreqs"] == len(freqs) and bool(at["little_h"]) == st["h"]
                    and np.isclose(at["avg_z"], st["cosmo"].f2z(freqs.mean())) and at["taper"] == st["taper"]):
                return self.bad("file", f"attributes {at}", trace)
        else:
            try:
                ok = False
                for v in (0, 1):
                    m, wk = spherical(np.array([x[v] for x in want]), freqs, st, lens, weights or [1.0] * len(lens), kper, kpar, res["kbins"])
                    ok = ok or close(res["wf"], m)
                # the delays may follow either variant, one by one
                if not ok:
                    got = np.array([self.call(w.get_cylindrical_wf, x, kper * w.kunits, kpar * w.kunits) for x in lens])
                    m, wk = spherical(got, freqs, st, lens, weights or [1.0] * len(lens), kper, kpar, res["kbins"])
                    ok = all(self.same(g, x) for g, x in zip(got, want)) and close(res["wf"], m)
            except Ambiguous:
                return self.count("ambiguous")
            if not ok:
                return self.bad("value", f"spherical window functions of lengths {lens} weights {weights} differ", trace)
            if "wk" in res and not close(res["wk"], wk):
                return self.bad("value", f"mean modes {res['wk']} for {wk}", trace)
        self.count("direct " + a["op"])

    def ask(self, w, op, r, lens, weights, out):
        kper, kpar = w.get_kperp_bins(lens), w.get_kpara_bins(w.freq_array)
        res = dict(kper=kper.value, kpar=kpar.value)
        if r["how"] == "units":  # bins without unit, or with that of the other convention
            from astropy import units
            kper = self.rng.choice([kper.value, kper.value * (units.Mpc**-1 if w.little_h else units.littleh / units.Mpc)])
        if op == "cyl":
            if r["how"] == "own":
                res["wf"] = w.get_cylindrical_wf(lens[0])
            elif r["how"] == "weighted":
                res["kmean"], _, res["wf"] = w.get_cylindrical_wf(lens[0], kper, kpar, return_bins="weighted")
            else:
                a, b, res["wf"] = w.get_cylindrical_wf(lens[0], kper, kpar, return_bins="unweighted")
                if not (np.array_equal(a, res["kper"]) and np.array_equal(b, res["kpar"])):
                    res["wf"] = np.zeros(0)
            return res
        if op == "store":
            kw = dict(kperp_bins=kper, kpara_bins=kpar) if r["how"] == "units" or self.rng.random() < 0.3 else {}
            ws = weights if r["how"] != "badweights" else [1.0] * (len(lens) + 1)
            w.run_and_write(out, lens, bl_weights=ws, clobber=r["clobber"], **kw)
            with h5py.File(out, "r") as f:
                res.update(kper=f["kperp_bins"][()], kpar=f["kpara_bins"][()], wf=f["cyl_wf"][()], lens=f["bl_lens"][()],
                           weights=f["bl_weights"][()], dly=f["dly_array"][()], attrs=dict(f.attrs))
            return res
        top = np.hypot(kper.value.max(), kpar.value.max())
        n = self.rng.choice([6, 9, 14])
        k0 = self.rng.choice([0.0, self.rng.uniform(0.1, 0.9)]) * top / n
        res["kbins"] = k0 + top / n * self.rng.uniform(0.7, 1.05) * np.arange(n)
        bins = res["kbins"] * w.kunits
        if r["how"] == "nonlinear":
            bins = bins ** 2 / bins[-1]
        ws = weights if r["how"] != "badweights" else [1.0] * (len(lens) + 1)
        x = lens if len(lens) > 1 or self.rng.random() < 0.5 else lens[0]
        kw = dict(kperp_bins=kper, kpara_bins=kpar) if self.rng.random() < 0.3 else {}
        if r["how"] == "weighted":
            res["wf"], res["wk"] = w.get_spherical_wf(bins, x, return_weighted_k=True, **kw)
        else:
            res["wf"] = w.get_spherical_wf(bins, x, bl_weights=ws, **kw)
        return res


def work(item):
    seed, traces = item
    r = Replay(seed)
    r.run(traces)
    return dict(violations=r.viol, counts=r.counts, samples=[])


def run(chk):
    from hera_pspec import uvwindow  # noqa: F401
    from .. import uvp  # noqa: F401
    r = core.run_tlc("Windows", "Windows.cfg", dict(Random="FALSE", Emit="FALSE", MaxStep="4" if chk.thorough else "3"), workers=4)
    chk.add_tlc(r, "Windows-exhaustive")
    traces = core.simulate_traces(chk, "Windows", {}, 2400 if chk.thorough else 240, 18)
    chk.sample(traces[0][:3])
    for res in core.pmap(work, [(chk.seed * 50 + i, c) for i, c in enumerate(core.chunks(traces, 48 if chk.thorough else 16))]):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
