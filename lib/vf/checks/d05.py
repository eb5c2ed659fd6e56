"""D05: data sets entered with calibrations are those data over their own gains.

Behaviours of Calibrate.tla make calibrations (gains 2^k i^m, flags) and enter data sets, error data sets and calibrations
of the caller, also the same object several times, in lists, tuples, dictionaries, or in a whole run.  The specification
gives the gain every visibility was divided by and what is flagged; what the analysis holds is compared with it."""
import contextlib
import io
import shutil
import tempfile
import warnings

import numpy as np

from .. import core

BLS = [(0, 1), (1, 2), (2, 0)]
POLS = ["xx", "yy", "xy", "yx"]
FEEDS = {"x": -5, "y": -6}
NT, NF = 2, 3


class Bad(Exception):
    pass


class Replay:
    def __init__(self, seed):
        import hera_pspec as hp
        from pyuvdata import UVCal
        from .. import uvd
        self.hp, self.V, self.UVCal = hp, uvd, UVCal
        self.seed = seed
        self.viol, self.counts = [], {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def raw(self, seed):
        rng = np.random.default_rng(seed)
        n = int(rng.integers(0, 3))
        u = self.V.build(bls=BLS, pols=POLS, ntimes=NT, nfreq=NF, seed=seed, flags=lambda bl, p, t, f: rng.random(f) < 0.1 * n,
                         order=["bl", None][seed % 2])
        if rng.random() < 0.3:  # calibrated some time before
            u.extra_keywords["calibration"] = ["first.calfits", '""'][n % 2]
        return u

    def start(self):
        self.rng = np.random.default_rng(self.seed)
        self.raws = [self.raw(10 * self.seed + i) for i in range(4)]
        self.before = [self.state(u) for u in self.raws]
        self.ds = self.hp.PSpecData()
        self.cals = [None] * 3
        self.dir = None

    def state(self, u):
        return self.V.state(u) + (repr(sorted(u.extra_keywords.items())),)

    def cal(self, a):
        c = self.UVCal.initialize_from_uvdata(self.raws[0], gain_convention="divide", cal_style="redundant", metadata_only=False,
                                              jones_array=np.array([-5, -6]), wide_band=False, cal_type="gain")
        c.gain_convention = "divide" if a["divide"] else "multiply"
        ants, jones = list(c.ant_array), list(c.jones_array)
        at = lambda s: (ants.index(s[0]), s[3] - 1, s[2] - 1, jones.index(FEEDS[s[1]]))
        for s, (k, m) in a["gain"]:
            c.gain_array[at(s)] = 2.0**k * 1j**m
        c.flag_array[:] = False
        for s in a["flags"]:
            c.flag_array[at(s)] = True
        if a["late"]:
            c.time_array = c.time_array + 3.0
            c.lst_array = None
            c.set_lsts_from_time_array()
        if self.rng.random() < 0.4:
            c.gain_scale, c.pol_convention = "Jy", "avg"
        return c

    def make(self, a):
        self.cals[a["k"] - 1] = self.cal(a)

    # ------------------------------------------------------------------ entering
    def add(self, a):
        es = a["entries"]
        dsets = [self.raws[e["raw"] - 1] for e in es]
        stds = [self.raws[e["std"] - 1] if e["std"] else None for e in es]
        cals = [self.cals[e["cal"] - 1] if e["cal"] else None for e in es]
        if a["wrong"] == "short":
            cals = cals + [None]
        if a["wrong"] == "kind":
            cals[-1] = "gains.calfits"
        form, rng = a["form"], self.rng
        kw = dict(labels=None)
        ndone = len(self.ds.dsets) if not a["fresh"] else 0
        if form == "dict":
            names = [f"l{ndone + i}" for i in range(len(es))]
            order = rng.permutation(len(es))
            dsets, stds, cals = dsets, stds, {names[i]: cals[i] for i in order}
            dsets, stds, wgts = dict(zip(names, dsets)), {names[i]: stds[i] for i in order}, {n: None for n in names}
        elif form == "tuple":
            dsets, stds, cals, wgts = tuple(dsets), tuple(stds), tuple(cals), (None,) * len(es)
        elif form == "one":
            dsets, stds, cals, wgts = dsets[0], stds[0] if stds[0] is not None else None, cals[0], None
        else:
            wgts = [None] * len(es)
        if a["nocals"]:
            cals = None
        if a["nostd"]:
            stds = None
        if a["prop"] is False or rng.random() < 0.5:
            kw["cal_flag"] = a["prop"]
        shown = [list(x) if isinstance(x, (list, tuple)) else dict(x) if isinstance(x, dict) else x for x in (dsets, stds, cals, wgts)]
        held = (list(self.ds.dsets), list(self.ds.labels or []))
        try:
            if a["fresh"] and form != "one" and (stds is None or form == "dict" or None not in stds) and rng.random() < 0.5:
                kw.pop("labels")
                self.ds = self.hp.PSpecData(dsets=dsets, wgts=wgts, dsets_std=stds, cals=cals, **kw)
            else:
                if a["fresh"]:
                    self.ds = self.hp.PSpecData()
                self.ds.add(dsets, wgts, dsets_std=stds, cals=cals, **kw)
            ok = True
        except (ValueError, TypeError, AssertionError) as exc:
            ok = False
            err = exc
            if a["fresh"]:
                if len(self.ds.dsets) and self.ds.dsets is not None and not a["ok"]:
                    self.ds = self.hp.PSpecData()
        if ok != a["ok"]:
            raise Bad(f"add: {'accepted' if ok else f'{type(err).__name__}: {str(err)[:200]}'}")
        for x, y in zip((dsets, stds, cals, wgts), shown):
            same = (len(x) == len(y) and all(p is q for p, q in zip(x, y))) if isinstance(y, list) else \
                (list(x) == list(y) and all(x[k] is y[k] for k in y)) if isinstance(y, dict) else True
            if not same:
                raise Bad("the containers given were changed")
        self.compare(a, self.ds)

    def run_(self, a):
        es = a["entries"]
        dsets = [self.raws[e["raw"] - 1] for e in es]
        stds = [self.raws[e["std"] - 1] if e["std"] else None for e in es]
        cals = [self.cals[e["cal"] - 1] for e in es]
        if a["one"]:
            cals = cals[0]
        self.ds = self.hp.PSpecData()
        n = len(es)
        try:
            self.ds = self.hp.pspecdata.pspec_run(
                dsets, self.dir + "/out.h5", dsets_std=None if a["nostd"] else stds, cals=cals, cal_flag=a["prop"], Jy2mK=False, verbose=False,
                overwrite=True, blpairs=[((0, 1), (0, 1)), ((0, 1), (1, 2))], dset_pairs=[(0, n - 1)], pol_pairs=[("xx", "xx")], spw_ranges=[(0, NF)],
                interleave_times=False, broadcast_dset_flags=False, taper="none", tsleep=0.01, maxiter=1)
            ok = True
        except ValueError as exc:
            ok, err = False, exc
        if ok != a["ok"]:
            raise Bad(f"run: {'accepted' if ok else str(err)[:300]}")
        self.compare(a, self.ds)

    # ------------------------------------------------------------------ comparing
    def compare(self, a, ds):
        if [self.state(u) for u in self.raws] != self.before:
            raise Bad("a data set of the caller was changed")
        ent = a["entered"]
        if len(ds.dsets) != len(ent):
            raise Bad(f"{len(ds.dsets)} data sets, specified {len(ent)}")
        for i, e in enumerate(ent):
            for got, src, what in ((ds.dsets[i], e["raw"], "data set"), (ds.dsets_std[i], e["std"], "error data set")):
                if (got is None) != (src == 0):
                    raise Bad(f"{what} {i}: {got}")
                if src:
                    self.visibilities(got, self.raws[src - 1], e["effect"], f"{what} {i} of {len(ent)} (raw {src}, calibration {e['cal']})")

    def visibilities(self, got, raw, eff, what):
        self.count("data sets compared")
        for x in ("time_array", "lst_array", "nsample_array", "freq_array", "polarization_array", "ant_1_array", "ant_2_array"):
            if not np.array_equal(getattr(got, x), getattr(raw, x)):
                raise Bad(f"{what}: {x}")
        data, flags = raw.data_array.copy(), raw.flag_array.copy()
        known = np.ones(data.shape, dtype=bool)
        if eff["over"]:
            pols = list(raw.polarization_array)
            for b, bl in enumerate(BLS):
                rows = np.atleast_1d(np.arange(raw.Nblts)[raw.antpair2ind(bl, ordered=True)])
                rows = rows[np.argsort(raw.time_array[rows])]
                for p, pol in enumerate(POLS):
                    ip = pols.index(self.V.POLN[pol])
                    g = np.array(eff["over"][b][p])   # time, channel, (k, m)
                    data[rows, :, ip] /= 2.0 ** g[..., 0] * 1j ** g[..., 1]
                    for bb, pp, t, c in eff["cut"]:
                        if bb == b + 1 and pp == p + 1:
                            flags[rows[t - 1], c - 1, ip] = True
                            known[rows[t - 1], c - 1, ip] = False
        if not np.array_equal(got.flag_array, flags):
            raise Bad(f"{what}: {np.sum(got.flag_array)} flags, specified {np.sum(flags)} ({np.sum(raw.flag_array)} before)")
        bad = known & ~np.isclose(got.data_array, data, rtol=1e-6, atol=0)
        if bad.any():
            x = tuple(np.argwhere(bad)[0])
            raise Bad(f"{what}: {bad.sum()} visibilities differ, the first by a factor of {got.data_array[x] / data[x]:.4f}; raw over specified: "
                      f"{raw.data_array[x] / data[x]:.4f}")

    def run(self, traces):
        for tr in traces:
            self.seed += 1
            self.start()
            self.dir = tempfile.mkdtemp(prefix="d05-")
            done = []
            try:
                for a in tr:
                    done.append(a)
                    self.count(a["op"])
                    try:
                        getattr(self, "run_" if a["op"] == "run" else a["op"])(a)
                    except Bad as exc:
                        self.viol.append(dict(clause=a["op"], detail=str(exc)[:1000] + f" | { {k: v for k, v in a.items() if k != 'entered'} }",
                                              replay=[{k: v for k, v in x.items() if k not in ("entered", "gain")} for x in done[-6:]], key=a["op"]))
                        break
            finally:
                shutil.rmtree(self.dir)
            if len(self.viol) > 10:
                break
        return dict(violations=self.viol, counts=self.counts, samples=[[a["op"] for a in tr] for tr in traces[:1]])


def work(item):
    seed, traces = item
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Replay(seed).run(traces)


def run(chk):
    import hera_pspec  # noqa: F401
    traces = core.simulate_traces(chk, "Calibrate", {}, 2400 if chk.thorough else 240, 10)
    for res in core.pmap(work, [(chk.seed * 1000 + 41 * i, c) for i, c in enumerate(core.chunks(traces, 24))]):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
