"""D07: spectral windows are exactly the channels they name.

Behaviours of Bands.tla ask data and spectra for the channels of frequency and redshift ranges, set windows, and estimate spectra
in them; the specification gives the channels."""
import contextlib
import io
import warnings

import numpy as np

from .. import core

F21 = 1.420405751e9
F0 = [100e6, 120e6, 150.5e6]
DF = [1e5, 4e5]


class Bad(Exception):
    pass


class Replay:
    def __init__(self, seed):
        import hera_pspec as hp
        from .. import uvd
        self.hp, self.V, self.seed = hp, uvd, seed
        self.viol, self.counts = [], {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def freq(self, q):
        """frequency of a place, in quarters of a channel"""
        return self.f0 + self.df * q / 4

    def make(self, a):
        self.f0, self.df, self.n = F0[a["f0"]], DF[a["df"]], a["n"]
        self.data = self.V.build(bls=[(0, 1), (1, 2)], pols=["xx"], ntimes=2, nfreq=self.n, seed=self.seed, freq0=self.f0, df=self.df)
        self.ds = self.hp.PSpecData([self.data, self.data], [None, None])
        self.uvp = None

    def range(self, r, by):
        lo, hi = self.freq(r[0]), self.freq(r[1])
        if by == "z":
            lo, hi = F21 / hi - 1, F21 / lo - 1
        return [(lo, hi), (np.float64(lo), np.float64(hi))][int(self.rng.integers(2))]

    def func(self, by):
        return self.hp.utils.spw_range_from_freqs if by == "freq" else self.hp.utils.spw_range_from_redshifts

    def ask(self, a):
        obj = self.uvp if a["of"] == "spectrum" else self.data
        rs = [self.range(r, a["by"]) for r in a["ranges"]]
        given = rs[0] if a["single"] else list(rs)
        kw = {} if a["strict"] and self.rng.random() < 0.5 else dict(bounds_error=a["strict"])
        try:
            got = self.func(a["by"])(obj, given, **kw)
        except ValueError as exc:
            if a["ok"] and not a["either"]:
                raise Bad(f"refused: {exc}")
            self.count("refused")
            return
        if not a["ok"]:
            raise Bad(f"accepted: {got}")
        if not a["single"] and given != rs:
            raise Bad("the list of ranges was changed")
        want = [tuple(x) if x else (None, None) for x in a["answer"]]
        if not isinstance(got, tuple if a["single"] else list):
            raise Bad(f"{type(got).__name__} for a {type(given).__name__}")
        got = [got] if a["single"] else got
        if [tuple(g) for g in got] != want:
            raise Bad(f"{got}, specified {want}")
        self.count(f"{a['by']} ranges of {a['of']}", len(want))

    def malformed(self, a):
        r = self.range(a["range"], a["by"])
        g = {"turned": (r[1], r[0]), "array": np.array([r]), "number": r[0]}[a["how"]]
        if a["how"] == "array" and a["by"] == "z":
            return
        if a["how"] == "turned" and self.rng.random() < 0.5:
            g = [r, g]
        try:
            got = self.func(a["by"])(self.data, g, bounds_error=False)
        except (ValueError, TypeError):
            return
        raise Bad(f"{a['how']}: accepted, {got}")

    # ------------------------------------------------------------------ windows
    def delays(self, n, w):
        return np.fft.fftshift(np.fft.fftfreq(n, d=self.df))

    def set(self, a):
        w, nd = tuple(a["window"]), a["nd"]
        try:
            self.ds.set_spw(w, ndlys=nd) if nd else self.ds.set_spw(w)
        except ValueError:
            if a["ok"]:
                raise Bad(f"refused: {w}, {nd} delays")
            self.ds.set_spw((0, self.n))
            return
        if not a["ok"]:
            raise Bad(f"accepted: {nd} delays of {w}")
        if tuple(self.ds.spw_range) != w or self.ds.spw_Nfreqs != w[1] - w[0]:
            raise Bad(f"window {self.ds.spw_range} of {self.ds.spw_Nfreqs} channels, asked for {w}")
        want = self.delays(nd or w[1] - w[0], w) * 1e9
        got = self.ds.delays()
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, atol=1e-9):
            raise Bad(f"delays {got}, specified {want}")
        x = self.ds.x((0, (0, 1), "xx"))
        if x.shape[0] != w[1] - w[0] or not np.array_equal(x, self.data.get_data((0, 1, "xx")).T[w[0]:w[1]]):
            raise Bad(f"visibilities of window {w} are not those of its channels")

    def estimate(self, a):
        ws = [tuple(w) for w in a["windows"]]
        nd = a["nd"]
        kw = dict(n_dlys=nd if len(ws) == 1 and self.rng.random() < 0.5 else [nd] * len(ws)) if nd else {}
        if ws == [(0, self.n)] and self.rng.random() < 0.5:
            spw = None
        else:
            spw = ws[0] if len(ws) == 1 and self.rng.random() < 0.5 else list(ws)
        u = self.ds.pspec([(0, 1)], [(1, 2)], (0, 1), [("xx", "xx")], spw_ranges=spw, taper="none", verbose=False, **kw)
        if u.Nspws != len(ws):
            raise Bad(f"{u.Nspws} windows, asked for {ws}")
        want = [self.freq(4 * np.array(c)) for c in a["channels"]]
        for i, f in enumerate(want):
            got = u.freq_array[u.spw_to_freq_indices(i)]
            if not np.array_equal(got, f):
                raise Bad(f"window {i} ({ws[i]}) has the frequencies {got}, specified {f}")
            k = nd or len(f)
            d = u.get_dlys(i)
            if d.shape != (k,) or not np.allclose(d, self.delays(k, ws[i]), rtol=1e-9, atol=1e-15):
                raise Bad(f"window {i} ({ws[i]}) has the delays {d}")
            if not np.allclose(u.channel_width, self.df):
                raise Bad(f"channel width {u.channel_width}")
            self.count("windows estimated")
        order = list(self.rng.permutation(len(ws)))
        for sel in (None, order, [order[0]], int(order[0])):
            got = u.get_spw_ranges() if sel is None else u.get_spw_ranges(sel)
            idx = range(len(ws)) if sel is None else [sel] if isinstance(sel, int) else sel
            for g, i in zip(got, idx):
                w = (want[i][0], want[i][0] + len(want[i]) * self.df, len(want[i]), nd or len(want[i]))
                if not np.allclose(g, w, rtol=1e-12):
                    raise Bad(f"range of window {i} is {g}, specified {w}")
            if len(got) != len(list(idx)):
                raise Bad(f"{len(got)} ranges for windows {sel}")
        # what a range named in frequency gives is the window it came from
        back = self.hp.utils.spw_range_from_freqs(self.data, [tuple(g[:2]) for g in u.get_spw_ranges()], bounds_error=False)
        if [(int(b[0]), int(b[1]) + 1) for b in back] != ws:
            raise Bad(f"the channels of the ranges of windows {ws} are {back}")
        self.uvp = u

    def run(self, traces):
        for tr in traces:
            self.seed += 1
            self.rng = np.random.default_rng(self.seed)
            done = []
            for a in tr:
                op, a = a["op"], a["a"]
                done.append(dict(op=op, **a))
                self.count(op)
                try:
                    getattr(self, op)(a)
                except Bad as exc:
                    self.viol.append(dict(clause=op, detail=str(exc)[:800] + f" | {a}", replay=done[-6:], key=op))
                    break
            if len(self.viol) > 10:
                break
        return dict(violations=self.viol, counts=self.counts, samples=[[a["op"] for a in tr] for tr in traces[:1]])


def work(item):
    seed, traces = item
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Replay(seed).run(traces)


def run(chk):
    import hera_pspec  # noqa: F401
    traces = core.simulate_traces(chk, "Bands", {}, 4000 if chk.thorough else 400, 20)
    for res in core.pmap(work, [(chk.seed * 1000 + 47 * i, c) for i, c in enumerate(core.chunks(traces, 24))]):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
