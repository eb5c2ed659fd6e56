"""P01: beam models and cosmologies answer for the polarization, frequencies and parameters asked.

Behaviours of Beams.tla build beams from tables (or Gaussians), add polarizations, exchange cosmologies, write into the
arrays handed over, and ask for integrals, scalars, unit conversions and distances.  The specification says which table
answers, what is refused, and by which ratio scalars scale; the scale itself is integrated here independently."""
import contextlib
import io
import warnings

import numpy as np
from scipy import integrate, signal

from .. import core

C, F21, KB = 2.99792458e8, 1.420405751e9, 1.38064852e-23
NAMES = {1: "pI", 2: "pQ", 3: "pU", 4: "pV", -5: "XX", -6: "YY", -7: "XY", -8: "YX"}
SKY = {"east": {-5: "ee", -6: "nn", -7: "en", -8: "ne"}, "north": {-5: "nn", -6: "ee", -7: "ne", -8: "en"},
       "none": {-5: "ee", -6: "nn", -7: "en", -8: "ne"}}
GRIDS = {1: np.linspace(100e6, 200e6, 21), 2: np.linspace(115e6, 125e6, 6), 3: np.linspace(50e6, 240e6, 40)}


class Bad(Exception):
    pass


def shape(s, f):
    x = (f - 120e6) / 20e6
    return [1 + 0 * x, 1 - 0.05 * x, 1 - 0.1 * x + 0.01 * x**2, 0.8 + 0.003 * x**2][s]


class Cosmo:
    """distances, by their definitions"""

    def __init__(self, L, M, H):
        self.L, self.M, self.H, self.k = L / 1000, M / 1000, H / 10, (1000 - L - M) / 1000

    def E(self, z):
        return np.sqrt(self.M * (1 + z) ** 3 + self.k * (1 + z) ** 2 + self.L)

    def unit(self, lh):
        return C / 1e3 / (100 if lh else self.H)

    def DC(self, z, lh):
        x, w = np.polynomial.legendre.leggauss(60)
        t = 0.5 * np.log(1 + z) * (x + 1)  # in log(1 + z)
        return self.unit(lh) * np.sum(w * np.exp(t) / self.E(np.exp(t) - 1)) * 0.5 * np.log(1 + z)

    def DM(self, z, lh):
        d, u = self.DC(z, lh), self.unit(lh)
        if self.k == 0:
            return d
        r = np.sqrt(abs(self.k))
        return u / r * (np.sinh if self.k > 0 else np.sin)(r * d / u)

    def para(self, z, lh):
        return (1 + z) ** 2 / self.E(z) * self.unit(lh) / F21

    def X2Y(self, z, lh):
        return self.DM(z, lh) ** 2 * self.para(z, lh)


class Replay:
    def __init__(self, seed):
        import hera_pspec as hp
        self.hp, self.rng = hp, np.random.default_rng(seed)
        self.viol, self.counts = [], {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ------------------------------------------------------------------ naming
    def name(self, code, form, xo):
        if form == "number":
            return int(code) if self.rng.random() < 0.5 else np.int64(code)
        if form == "sky" and code < 0:
            return SKY[xo][code]
        n = NAMES[code]
        return n.lower() if form == "lower" and code < 0 else n

    def cosmo(self, g):
        kw = dict(Om_L=g["L"] / 1000, Om_b=g["b"] / 1000, Om_c=g["c"] / 1000, H0=g["H"] / 10)
        if g["M"]:
            kw["Om_M"] = (g["M"] if g["M"] > 0 else g["b"] + g["c"]) / 1000
        return self.hp.conversions.Cosmo_Conversions(**kw)

    def own(self, g):
        return Cosmo(g["L"], g["M"] if g["M"] > 0 else g["b"] + g["c"], g["H"])

    def table(self, t, grid):
        s = shape(t[2], GRIDS[grid])
        return t[0] * s, t[1] * s**2

    # ------------------------------------------------------------------- steps
    def new(self, a):
        grid, xo, way = a["grid"], a["xo"], a["way"]
        self.counts[way] = self.counts.get(way, 0) + 1
        freqs = GRIDS[grid].copy()
        kw = {}
        if not a["default"]:
            kw["cosmo"] = self.cosmo(a["cosmo"])
        B = self.hp.pspecbeam
        if way == "gauss":
            b = B.PSpecBeamGauss(np.sqrt(a["unit"] * 8 * np.log(2) / np.pi), freqs, **kw)
        else:
            if xo != "none":
                kw["x_orientation"] = xo
            P, PP = {}, {}
            order = list(a["pols"])
            for i in self.rng.permutation(len(order)):
                p, t = order[i]
                x, y = self.table(t, grid)
                P[self.name(p, a["form"], xo)], PP[self.name(p, a["form"], xo)] = x, y
            PP = {k: PP[k] for k in self.rng.permutation(np.array(list(PP), dtype=object))}
            if way == "gap":
                d = PP if self.rng.random() < 0.5 else P
                del d[list(d)[0]]
            elif way == "strange":
                k = [int(a["odd"]), "pX"][int(self.rng.integers(2))]
                P[k], PP[k] = np.ones(len(freqs)), np.ones(len(freqs))
            elif way == "array":
                P, PP = list(P.values())[0], list(PP.values())[0]
            elif way == "mixed":
                P = list(P.values())[0]
                P, PP = [(P, PP), (PP, P)][int(self.rng.integers(2))]
            elif way == "lists":
                P, PP = [list(x) for x in P.values()], [list(x) for x in PP.values()]
            told = self.told(P), self.told(PP)
            try:
                b = B.PSpecBeamFromArray(P, PP, freqs if self.rng.random() < 0.7 else list(freqs), **kw)
            except (KeyError, TypeError, ValueError) as exc:
                b = exc
            if told != (self.told(P), self.told(PP)):
                raise Bad(f"the tables given were changed: keys {list(P)}, {list(PP)}")
            if isinstance(b, Exception) != (not a["ok"]):
                raise Bad(f"a beam of {way} {list(P) if isinstance(P, dict) else ''}: {b!r}")
            self.given.append((P, PP))
        if a["ok"]:
            rec = dict(b=b, grid=grid, xo=xo, kind="gauss" if way == "gauss" else "table", cosmo=a["cosmo"], unit=a["unit"], default=a["default"])
            if a["k"] > len(self.beams):
                self.beams.append(rec)
            else:
                self.beams[a["k"] - 1] = rec

    def told(self, x):
        if isinstance(x, dict):
            return [(k, v.tobytes()) for k, v in x.items()]
        return np.asarray(x).tobytes()

    def addpol(self, a):
        if a["skip"]:
            return
        r = self.beams[a["k"] - 1]
        x, y = self.table(a["table"], r["grid"])
        if a["wrong"] == "shape":
            if self.rng.random() < 0.5:
                x = x[:-1]
            else:
                y = np.append(y, 1.0)
        if a["wrong"] == "text":
            x = "wide"
        if a["wrong"] != "text" and self.rng.random() < 0.3:
            x, y = list(x), list(y)
        try:
            r["b"].add_pol(int(a["pol"]) if a["wrong"] == "strange" else self.name(a["pol"], a["form"], r["xo"]), x, y)
            ok = True
        except (KeyError, TypeError, ValueError) as exc:
            ok = False
        if ok != a["ok"]:
            raise Bad(f"add_pol of {a['pol']} as {a['form']} ({a['wrong'] or 'proper'}): {'accepted' if ok else 'refused'}")
        self.given.append((x, y))

    def scribble(self, a):
        for pair in self.given:
            for x in pair:
                for v in list(x.values()) if isinstance(x, dict) else [x]:
                    if isinstance(v, np.ndarray):
                        v[:] = -7.0
                if isinstance(x, dict):
                    x.clear()
        self.given = []

    def setcosmo(self, a):
        r = self.beams[a["k"] - 1]
        r["b"].cosmo = self.cosmo(a["cosmo"])
        r["cosmo"], r["default"] = a["cosmo"], False

    # --------------------------------------------------------------- questions
    def ask(self, ok, f, what):
        try:
            res = f()
        except (KeyError, NotImplementedError, ValueError) as exc:
            if ok:
                raise Bad(f"{what}: {type(exc).__name__} {str(exc)[:200]}")
            self.count("refused")
            return None
        if not ok:
            raise Bad(f"{what}: {np.asarray(res).ravel()[:3]}, where nothing is known")
        return res

    def same(self, got, want, what, tol=1e-9):
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        self.count("numbers compared", want.size)
        if got.shape != want.shape or not np.allclose(got, want, rtol=tol, atol=0):
            raise Bad(f"{what}: {got.ravel()[:3]} (shape {got.shape}), specified {want.ravel()[:3]} (shape {want.shape})")

    def values(self, r, t):
        if r["kind"] == "gauss":
            o = np.ones(len(GRIDS[r["grid"]]))
            return 2 * r["unit"] * o, r["unit"] * o
        return self.table(t, r["grid"])

    def integrals(self, a):
        r = self.beams[a["k"] - 1]
        pol = self.name(a["pol"], a["form"], r["xo"])
        P, PP = self.values(r, a["table"])
        for f, want in ((r["b"].power_beam_int, P), (r["b"].power_beam_sq_int, PP)):
            res = self.ask(a["ok"], lambda: f(pol), f"{f.__name__}({pol!r})")
            if a["ok"]:
                self.same(res, want, f"{f.__name__}({pol!r})")
                if pol == "pI":
                    self.same(f(), want, f"{f.__name__}()")

    def omegas(self, a):
        from hera_pspec import uvpspec_utils
        r = self.beams[a["k"] - 1]
        ps = [tuple(p) for p in a["pairs"]]
        if a["form"] in ("ints", "array"):
            arg = [uvpspec_utils.polpair_tuple2int(p) for p in ps]
            arg = np.array(arg) if a["form"] == "array" else arg
        elif a["form"] == "names":
            arg = [(NAMES[p], NAMES[q]) for p, q in ps]
        elif a["form"] == "one":
            arg = ps[0] if self.rng.random() < 0.5 else uvpspec_utils.polpair_tuple2int(ps[0])
        else:
            arg = ps
        told = repr(arg)
        res = self.ask(a["ok"], lambda: r["b"].get_Omegas(arg), f"get_Omegas({arg})")
        if told != repr(arg):
            raise Bad("the pairs given were changed")
        if a["ok"]:
            want = [self.values(r, t) for t in a["tables"]]
            for i in range(2):
                self.same(res[i], np.array([w[i] for w in want]).T, f"get_Omegas({arg})[{i}]")

    def window(self, r, win):
        g = GRIDS[r["grid"]]
        step = (g[1] - g[0]) * [0.05, 0.1, 0.2][len(g) // 15]
        lo = g[1] + (0.01 * (g[-1] - g[0])) * win[0]
        return lo, step * win[1], win[2]

    def scalar(self, a):
        r = self.beams[a["k"] - 1]
        pol = self.name(a["pol"], a["form"], r["xo"])
        lo, df, n = self.window(r, a["win"])
        hi = lo + n * df
        kw = dict(num_steps=300, taper=a["taper"], noise_scalar=a["noise"], exact_norm=a["exact"])
        if not a["lh"] or self.rng.random() < 0.5:
            kw["little_h"] = a["lh"]
        before = np.random.get_state()[1].tobytes()
        res = self.ask(a["ok"], lambda: r["b"].compute_pspec_scalar(lo, hi, n, pol=pol, **kw), f"scalar of {pol!r}")
        if not a["ok"]:
            return
        if not r["default"]:
            own = self.own(r["cosmo"])
        else:
            own = Cosmo(684.40, 313.53, 672.7)
        f = np.linspace(lo, hi, 33)
        xy = np.array([own.X2Y(F21 / v - 1, a["lh"]) for v in f])
        if a["exact"]:
            want, tol = integrate.simpson(xy, x=f) / (hi - lo), 1e-4
        else:
            s = shape(a["shape"], f) if r["kind"] == "table" else np.ones_like(f)
            # the table is PP s^2 / (P s)^2, so its shape drops out
            assert s.shape == f.shape
            want, tol = (hi - lo) ** 2 / integrate.simpson(1 / xy, x=f), 2e-3
            if a["noise"]:
                want = want / (hi - lo)
            elif a["taper"] != "none":
                t = signal.windows.get_window("blackmanharris" if a["taper"] != "hann" else "hann", n, fftbins=False)
                # of channels as wide as half a channel more at the end and less at the start
                w = np.ones(n)
                w[0], w[-1] = 0.5, 1.5
                x = np.array([own.X2Y(F21 / v - 1, a["lh"]) for v in lo + df * np.arange(n)])
                want, tol = n * (hi - lo) / np.sum(w * t**2 / x), 0.05
            want = want * a["num"] / a["den"]
            if r["kind"] == "gauss":
                want = want * r["unit"]
        self.same(res, want, f"scalar of {pol!r}, {kw}, {lo/1e6:.2f}-{hi/1e6:.2f} MHz in {n}", tol)
        if before != np.random.get_state()[1].tobytes():
            raise Bad("random numbers were drawn")

    def convert(self, a):
        r = self.beams[a["k"] - 1]
        pol = self.name(a["pol"], a["form"], r["xo"])
        lo, df, n = self.window(r, a["win"])
        f = lo + df * np.arange(n)
        one = self.rng.random() < 0.2
        arg = float(f[0]) if one else f.copy()
        res = self.ask(a["ok"], lambda: r["b"].Jy_to_mK(arg, pol=pol), f"Jy_to_mK of {pol!r}")
        if not a["ok"]:
            return
        f = f[:1] if one else f
        P = 2 * r["unit"] if r["kind"] == "gauss" else a["table"][0] * shape(a["table"][2], f)
        self.same(res, 1e-26 * 1e3 * C**2 / (2 * KB * f**2 * P), f"Jy_to_mK of {pol!r}", 1e-7)
        if not one and not np.array_equal(arg, f):
            raise Bad("the frequencies given were changed")

    def distances(self, a):
        g, res, z, lh = a["given"], a["res"], a["z"] / 10, a["lh"]
        c = self.cosmo(g)
        p = c.get_params()
        for k, v in (("Om_L", "L"), ("Om_M", "M"), ("Om_k", "k")):
            if abs(p[k] - res[v] / 1000) > 1e-9:
                raise Bad(f"{k} is {p[k]}, specified {res[v] / 1000}")
        if abs(p["Om_b"] + p["Om_c"] - p["Om_M"]) > 1e-5:
            raise Bad(f"baryons {p['Om_b']} and dark matter {p['Om_c']} do not make up all matter {p['Om_M']} ({g})")
        if not res["split"] and (p["Om_b"] != g["b"] / 1000 or p["Om_c"] != g["c"] / 1000):
            raise Bad("baryons and dark matter were changed")
        own = Cosmo(res["L"], res["M"], res["H"])
        kw = {} if lh and self.rng.random() < 0.5 else dict(little_h=lh)
        f = F21 / (1 + z)
        for got, want, what in ((c.DC(z, **kw), own.DC(z, lh), "DC"), (c.DM(z, **kw), own.DM(z, lh), "DM"), (c.DA(z, **kw), own.DM(z, lh) / (1 + z), "DA"),
                                (c.dRperp_dtheta(z, **kw), own.DM(z, lh), "dRperp_dtheta"), (c.dRpara_df(z, **kw), own.para(z, lh), "dRpara_df"),
                                (c.dRpara_df(z, ghz=True, **kw), own.para(z, lh) * 1e9, "dRpara_df per GHz"), (c.X2Y(z, **kw), own.X2Y(z, lh), "X2Y"),
                                (c.bl_to_kperp(z, **kw), 2 * np.pi * f / C / own.DM(z, lh), "bl_to_kperp"),
                                (c.tau_to_kpara(z, **kw), 2 * np.pi / own.para(z, lh), "tau_to_kpara"), (c.E(z), own.E(z), "E"),
                                (c.f2z(f), z, "f2z"), (c.f2z(f / 1e9, ghz=True), z, "f2z of GHz"), (c.z2f(z), f, "z2f"), (c.z2f(z, ghz=True), f / 1e9, "z2f in GHz")):
            self.same(got, want, f"{what} at z = {z}, {g}", 1e-6)

    def run(self, traces):
        for tr in traces:
            self.beams, self.given, done = [], [], []
            for a in tr:
                done.append(a)
                self.count(a["op"])
                try:
                    getattr(self, a["op"])(a)
                except Bad as exc:
                    self.viol.append(dict(clause=a["op"], detail=str(exc)[:1200] + f" | {a}", replay=done[-8:], key=a["op"]))
                    break
            if len(self.viol) > 10:
                break
        return dict(violations=self.viol, counts=self.counts, samples=[[a["op"] for a in tr] for tr in traces[:1]])


def work(item):
    seed, traces = item
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Replay(seed).run(traces)


def run(chk):
    import hera_pspec  # noqa: F401
    traces = core.simulate_traces(chk, "Beams", {}, 4000 if chk.thorough else 480, 16)
    for res in core.pmap(work, [(chk.seed * 1000 + 41 * i, c) for i, c in enumerate(core.chunks(traces, 32))]):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
