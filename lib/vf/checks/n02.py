"""N02: a noise calculator answers for its own beam, cosmology and observation.

Behaviours of Meter.tla give calculators cosmologies and beams in any order, calculate scalars, and ask for noise spectra.  The
specification says which beam and cosmology a scalar belongs to, and the power of two it is multiplied by; the scalar itself is
compared with that of a beam of its own under that cosmology."""
import contextlib
import io
import warnings

import numpy as np

from .. import core

COSMO = {1: dict(Om_L=0.68440, Om_b=0.04911, Om_c=0.26442, H0=67.27), 2: dict(Om_L=0.7, Om_b=0.05, Om_c=0.25, H0=50.0),
         3: dict(Om_L=0.6, Om_b=0.04, Om_c=0.3, H0=100.0)}
POLS = {1: "xx", 2: "yy"}
FREQS = np.linspace(100e6, 200e6, 21)
STEPS = 100


class Bad(Exception):
    pass


class Replay:
    def __init__(self, seed):
        import hera_pspec as hp
        self.hp, self.seed = hp, seed
        self.viol, self.counts, self.known = [], {}, {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def start(self):
        self.rng = np.random.default_rng(self.seed)
        self.calc = {k: self.hp.noise.Sensitivity() for k in (1, 2)}

    def cosmo(self, c, form="object"):
        C = self.hp.conversions.Cosmo_Conversions(**COSMO[c])
        if form == "dict":
            return dict(C.get_params())
        return C if form == "object" else str(C.get_params())

    def beam(self, b, c):
        B = self.hp.pspecbeam
        if b == 1:
            return B.PSpecBeamGauss(0.8, FREQS, cosmo=self.cosmo(c))
        s = 1 - 0.1 * b * (FREQS - 120e6) / 1e8
        return B.PSpecBeamFromArray({-5: 0.1 * b * s, -6: 0.3 * s}, {-5: 0.05 * s**2, -6: 0.07 * b * s**2}, FREQS, cosmo=self.cosmo(c))

    def window(self, w):
        return 120e6 + 1e6 * w[0] + 2e5 * np.arange(w[1])

    def scalar_of(self, s):
        key = (s["beam"], s["cosmo"], s["pol"], tuple(s["win"]), s["lh"])
        if key not in self.known:
            f = self.window(s["win"])
            self.known[key] = self.beam(s["beam"], s["cosmo"]).compute_pspec_scalar(
                f.min(), f.max(), len(f), num_steps=STEPS, pol=POLS[s["pol"]], little_h=s["lh"], noise_scalar=True)
        return self.known[key]

    def held(self, a):
        m, now = self.calc[a["k"]], a["now"]
        if now["cosmo"]:
            for x, what in ((m, "calculator"), *([(m.beam, "beam")] if now["beam"] else [])):
                got = x.cosmo.get_params()
                if any(not np.isclose(got[p], v, rtol=1e-9) for p, v in COSMO[now["cosmo"]].items()):
                    raise Bad(f"the cosmology of the {what} is {got}, specified {COSMO[now['cosmo']]}")
        if now["scal"]["beam"]:
            want = self.scalar_of(now["scal"])
            if not np.isclose(m.scalar, want, rtol=1e-9):
                raise Bad(f"scalar {m.scalar}, specified {want}")
            if not np.array_equal(m.subband, self.window(now["scal"]["win"])) or m.pol != POLS[now["scal"]["pol"]]:
                raise Bad(f"subband {m.subband}, polarization {m.pol}")
        elif getattr(m, "scalar", None) is not None:
            raise Bad(f"scalar {m.scalar} before one was calculated")

    # ------------------------------------------------------------------- steps
    def new(self, a):
        kw = {}
        if a["cosmo"] or self.rng.random() < 0.3:
            kw["cosmo"] = self.cosmo(a["cosmo"], a["form"]) if a["cosmo"] else None
        if a["beam"] or self.rng.random() < 0.3:
            kw["beam"] = self.beam(a["beam"], a["own"]) if a["beam"] else None
        self.calc[a["k"]] = self.hp.noise.Sensitivity(**kw)
        self.held(a)

    def setcosmo(self, a):
        c = self.cosmo(a["cosmo"], a["form"])
        self.calc[a["k"]].set_cosmology(c)
        if a["form"] == "dict" and c != dict(self.cosmo(a["cosmo"]).get_params()):
            raise Bad("the dictionary given was changed")
        self.held(a)

    def setbeam(self, a):
        self.calc[a["k"]].set_beam(self.beam(a["beam"], a["own"]))
        self.held(a)

    def scalar(self, a):
        m = self.calc[a["k"]]
        f = self.window(a["win"])
        g = f.copy()
        kw = {} if a["lh"] and self.rng.random() < 0.5 else dict(little_h=a["lh"])
        try:
            m.calc_scalar(f, POLS[a["pol"]], num_steps=STEPS, **kw)
        except (AttributeError, AssertionError, TypeError, ValueError, RuntimeError) as exc:
            if a["ok"]:
                raise Bad(f"scalar refused: {exc}")
        else:
            if not a["ok"]:
                raise Bad("a scalar without a beam")
        if not np.array_equal(f, g):
            raise Bad("the frequencies given were changed")
        self.held(a)
        self.count("scalar of a beam" if a["ok"] else "scalar refused")

    def noise(self, a):
        m, rng = self.calc[a["k"]], self.rng
        T = 2.0 ** a["T"]
        if a["many"]:
            T = T * np.array([1.0, 2.0, 0.5])
        kw = {}
        if a["c"] or rng.random() < 0.3:
            kw["Ncoherent"] = 2 ** a["c"]
        if a["i"] >= 0:
            kw["Nincoherent"] = 4 ** a["i"]
        if a["comp"] != "real" or rng.random() < 0.3:
            kw["component"] = a["comp"]
        if a["form"] != "Pk" or rng.random() < 0.3:
            kw["form"] = a["form"]
        k = np.array([0.1, 0.5, 2.0]) * a["ks"]
        if a["ks"]:
            kw["k"] = k.copy()
        T0 = np.array(T)
        try:
            if a["alone"] and a["now"]["scal"]["beam"]:
                got = self.hp.noise.calc_P_N(self.scalar_of(a["now"]["scal"]), T, 2.0 ** a["t"], **kw)
            else:
                got = m.calc_P_N(T, 2.0 ** a["t"], **kw)
        except (AttributeError, AssertionError, TypeError, ValueError, RuntimeError) as exc:
            if a["ok"]:
                raise Bad(f"noise refused: {type(exc).__name__}: {exc}")
            self.count("noise refused")
            return
        if not a["ok"]:
            raise Bad(f"noise {got} of a request that cannot be met")
        want = self.scalar_of(a["now"]["scal"]) * 1e6 * 2.0 ** (a["twice"] / 2)
        if a["many"]:
            want = want * np.array([1.0, 4.0, 0.25])
        if a["form"] == "DelSq":
            want = want * k**3 / (2 * np.pi**2)
        if np.shape(got) != np.shape(want) or not np.allclose(got, want, rtol=1e-9, atol=0):
            raise Bad(f"noise {got}, specified {want}")
        if not np.array_equal(T, T0) or (a["ks"] and not np.array_equal(kw["k"], k)):
            raise Bad("an argument was changed")
        self.held(a)
        self.count("noise")

    def run(self, traces):
        for tr in traces:
            self.seed += 1
            self.start()
            done = []
            for a in tr:
                op, a = a["op"], a["a"]
                done.append(dict(op=op, **a))
                self.count(op + "s")
                try:
                    getattr(self, op)(a)
                except Bad as exc:
                    self.viol.append(dict(clause=op, detail=str(exc)[:800] + f" | {a}", replay=done[-8:], key=op))
                    break
            if len(self.viol) > 10:
                break
        return dict(violations=self.viol, counts=self.counts, samples=[[a["op"] for a in tr] for tr in traces[:1]])


def work(item):
    seed, traces = item
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Replay(seed).run(traces)


def run(chk):
    import hera_pspec  # noqa: F401
    traces = core.simulate_traces(chk, "Meter", {}, 4000 if chk.thorough else 240, 24)
    for res in core.pmap(work, [(chk.seed * 1000 + 53 * i, c) for i, c in enumerate(core.chunks(traces, 10))]):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
