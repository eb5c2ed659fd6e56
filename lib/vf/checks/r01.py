"""R01: the end-to-end run stores exactly the requested spectra, rightly named.

Behaviours of Pipeline.tla are runs of pspec_run into one file, with changing data sets and options, between spectra
stored by others.  The specification says which runs are refused or stop at which pair of data sets, which spectra there
are afterwards under which names, from which data set, integrations, baseline-pairs and polarizations each was formed, and
which older ones are still there.  The content of a new spectrum is compared with an estimate from data sets prepared here
(calibrated, trimmed, split by the specification's integrations), older ones with what was read before."""
import contextlib
import copy
import glob
import io
import os
import shutil
import tempfile
import warnings

import numpy as np

from .. import core

NF = 8
SP = 14.6
LENS = {1: (0, 1e10), 2: (0, 1e10), 3: (1, 20), 4: (20, 1e10), 5: (0, 35)}
REFUSE = (ValueError, AssertionError, NotImplementedError, np.linalg.LinAlgError, KeyError, TypeError, IndexError, AttributeError)


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def same(a, b):
    """equality of two spectrum objects in everything they hold but their history; returns what differs"""
    names = set(a._all_params) | {"lst_1_array", "lst_2_array", "lst_avg_array", "nsample_array", "cov_array_real", "cov_array_imag",
                                  "stats_array", "label_1_array", "label_2_array", "labels", "r_params", "cov_model", "filter_extensions"
                                  if hasattr(a, "filter_extensions") else "labels"}
    for n in sorted(names - {"history"}):
        if hasattr(a, n) != hasattr(b, n):
            return n
        if not hasattr(a, n):
            continue
        x, y = getattr(a, n), getattr(b, n)
        if not eq(x, y):
            return n
    return None


def eq(x, y):
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(eq(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(eq(p, q) for p, q in zip(x, y))
    if x is None or y is None:
        return x is y
    if hasattr(x, "get_params") and hasattr(y, "get_params"):
        return x.get_params() == y.get_params()
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False
    if x.dtype.kind in "fc" and y.dtype.kind in "fc":
        s = np.abs(y[np.isfinite(y)]).max(initial=0.0)
        return bool(np.allclose(x, y, rtol=1e-9, atol=1e-12 * s, equal_nan=True))
    return bool(np.all(x == y))


OPTIONS = {
    1: dict(return_q=True),
    2: dict(taper="blackman-harris", store_window=False),
    3: dict(norm="H^-1", exact_norm=False),
    4: dict(input_data_weight="iC", norm="V^-1/2"),
    5: dict(store_cov=True, cov_model="empirical"),
    6: dict(store_cov_diag=True, cov_model="autos"),
    7: dict(store_cov=True, cov_model="dsets"),
    8: dict(filter_extensions=(1, 1), taper="tukey"),
    9: dict(n_dlys=True, norm="H^-1"),
    10: dict(input_data_weight="dayenu", taper="blackman-harris", symmetric_taper=False, norm="H^-1"),
    11: dict(sampling=True, return_q=True),
    12: dict(cosmo=True, history="of this run"),
}


class Replay:
    def __init__(self, seed):
        import hera_pspec as hp
        from .. import uvd
        self.V, self.hp, self.seed = uvd, hp, seed
        self.viol, self.counts = [], {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def bad(self, clause, text, trace):
        if len(self.viol) < 20:
            self.viol.append(dict(clause=clause, detail=text[:1800], replay=trace[-3:], key=clause))

    # ------------------------------------------------------------------ data
    def make(self, a):
        self.pool, self.paths = [], {}
        self.npool += 1
        for n, s in enumerate(a["sets"]):
            rng = np.random.default_rng(a["seed"] * 7 + n)
            spots = rng.random((8, 40, NF)) < 0.02
            dead = s["dead"]

            def flags(bl, p, t, nf):
                f = spots[(3 * bl[0] + bl[1] + (p == "yy")) % 8, t].copy()
                if bl[0] == bl[1]:
                    f[:] = False
                if dead in bl:
                    f[:] = True
                return f

            kw = dict(bls=[tuple(b) for b in s["bls"]], pols=s["pols"], ntimes=s["nt"], nfreq=NF, t0=s["t0"], autos=(0, 1, 2, 3),
                      order=[None, "bl"][a["seed"] % 2])
            u = self.V.build(seed=a["seed"] * 3 + n, flags=flags, **kw)
            std = self.V.build(seed=a["seed"] * 3 + n + 77, **kw)
            std.data_array[:] = 1 + np.abs(std.data_array.real)
            self.pool.append((u, std))

    def gains(self, u, seed):
        from pyuvdata import UVCal
        rng = np.random.default_rng(seed)
        c = UVCal.initialize_from_uvdata(u, gain_convention="divide", cal_style="redundant", metadata_only=False, jones_array="linear")
        c.gain_array[:] = (1 + rng.random(c.gain_array.shape)) * np.exp(6j * rng.random(c.gain_array.shape))
        c.flag_array[:] = rng.random(c.gain_array.shape) < 0.01
        c.gain_scale, c.pol_convention = "Jy", "avg"
        return c

    def calibrated(self, u, c, prop):
        t = list(np.unique(u.time_array))
        ants = list(c.ant_array)
        jn = {-5: 0, -6: 1}
        for n in range(u.Nblts):
            i, j = ants.index(u.ant_1_array[n]), ants.index(u.ant_2_array[n])
            k = t.index(u.time_array[n])
            for m, p in enumerate(u.polarization_array):
                q = list(c.jones_array).index({-5: -5, -6: -6}[int(p)])
                f = (c.flag_array[i, :, k, q] | c.flag_array[j, :, k, q]) & prop
                u.data_array[n, :, m] /= np.where(f, 1.0, c.gain_array[i, :, k, q] * c.gain_array[j, :, k, q].conj())
                u.flag_array[n, :, m] |= f

    def stored(self, d, mode, std):
        """the data set as given to the run, and as it is in full"""
        u = self.pool[d - 1][std]
        if mode <= 3:
            return copy.deepcopy(u), copy.deepcopy(u)
        from pyuvdata import UVData
        key = (self.npool, d, mode, std)
        if key not in self.paths:
            base = os.path.join(self.dir, f"p{self.npool}_{d}_{mode}_{int(std)}")
            times = np.unique(u.time_array)
            parts = [u] if mode in (4, 7) else [u.select(times=times[:1], inplace=False), u.select(times=times[1:], inplace=False)]
            files = []
            for i, p in enumerate(parts):
                p = copy.deepcopy(p)
                f = f"{base}.{i}." + ("uv" if mode == 7 else "uvh5")
                if mode == 7:
                    p.write_miriad(f, clobber=True)
                else:
                    p.write_uvh5(f, clobber=True)
                files.append(f)
            full = UVData()
            full.read(files, file_type="miriad" if mode == 7 else "uvh5")
            self.paths[key] = files, full
        files, full = self.paths[key]
        given = files[0] if mode in (4, 7) else list(files) if mode == 5 else files[0].replace(".0.", ".?.")
        return given, copy.deepcopy(full)

    # ------------------------------------------------------------------ a run
    def options(self, r):
        o = dict(OPTIONS[r["opt"]])
        if r["beam"] and "return_q" in o:
            o.pop("return_q")
        wins = [tuple(w) for w in r["wins"]] or None
        n = len(wins or [0])
        if o.pop("n_dlys", None):
            o["n_dlys"] = [4 - (i % 2) for i in range(n)]
        if "filter_extensions" in o:
            o["filter_extensions"] = [o["filter_extensions"]] * n
        if o.get("cov_model") == "dsets" and not r["std"]:
            o["cov_model"] = "empirical"
        if o.get("input_data_weight") == "dayenu":
            o["r_params"] = {}
            for i in range(3):
                for a in range(4):
                    for b in range(4):
                        for m, p in enumerate(("xx", "yy")):
                            o["r_params"][(i, a, b, p)] = dict(filter_centers=[0.0], filter_factors=[1e-3],
                                                               filter_half_widths=[100e-9 * (1 + i + abs(a - b) + 2 * m)])
        cosmo = None
        if o.pop("cosmo", None):
            cosmo = self.hp.conversions.Cosmo_Conversions(H0=70.0 + r["seed"] % 5)
        return o, wins, cosmo

    def run_it(self, a, done):
        r = a["r"]
        given, full, sgiven, sfull, cals = [], [], [], [], []
        mode = r["mode"]
        for n, d in enumerate(r["sets"]):
            x, y = self.stored(d, mode, 0)
            given.append(x)
            full.append(y)
            if r["std"]:
                x, y = self.stored(d, mode, 1)
                sgiven.append(x)
                sfull.append(y)
            cals.append(self.gains(y if r["std"] else full[-1], r["seed"] + n) if r["cal"] == 1 else None)
        o, wins, cosmo = self.options(r)
        beam = self.V.beam("gauss") if r["beam"] else None
        n = len(r["sets"])
        labels = [x for x in a["r"]["labels"]] or None
        if r["badlabel"]:
            labels = [["a_b", "c", "d"], ["a", "c_", "d"]][r["seed"] % 2 if n > 1 else 0][:n]
        kw = dict(dsets_std=sgiven or None, groupname=None if r["group"] == "none" else r["group"], dset_labels=labels,
                  dset_pairs=[(p[0] - 1, p[1] - 1) for p in r["pairs"]] or None, psname_ext=r["ext"] or (None if r["seed"] % 2 else ""),
                  spw_ranges=wins, pol_pairs=[tuple(q) for q in r["pols"]] or None,
                  blpairs=[tuple(tuple(b) for b in x) for x in r["blps"]] if r["given"] else None, overwrite=r["over"],
                  interleave_times=r["inter"], trim_dset_lsts=r["trim"], rephase_to_dset=None if r["rephase"] < 0 else r["rephase"],
                  broadcast_dset_flags=r["bc"] != 1, time_thresh=[0.1, 0.3, 0.6][r["thresh"] - 1], Jy2mK=r["beam"] and r["seed"] % 3 > 0,
                  exclude_auto_bls=r["noautos"], exclude_cross_bls=r["nocross"], exclude_permutations=r["noperm"], include_autocorrs=r["autos"],
                  include_crosscorrs=r["crosses"], bl_len_range=LENS[r["lencode"]], Nblps_per_group=r["per"] or None, beam=beam, cosmo=cosmo,
                  file_type="miriad" if mode == 7 else "uvh5", verbose=False, tsleep=0, **o)
        if any(c is not None for c in cals):
            kw.update(cals=copy.deepcopy(cals), cal_flag=bool(r["seed"] % 4))
        err = ds = None
        was = self.arguments(kw)
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            try:
                ds = self.hp.pspecdata.pspec_run(given, self.file, **kw)
            except REFUSE as exc:
                err = exc
        what = f"run {r}: "
        self.count("runs")
        if self.arguments(kw) != was:
            self.bad("arguments", what + f"changed its arguments: {was} are now {self.arguments(kw)}", done)
            return False
        self.count(f"mode {mode}")
        if err is not None and not a["err"] and not a["uneven"]:
            # a pair may be impossible for reasons of its own (no weight left, ..): then the estimate alone must fail alike
            k = self.reference_error(a, full, sfull, cals, kw)
            if k is None:
                self.bad("refused", what + f"fails with {err!r}", done)
            self.count("impossible: " + str(k)[:40])
            return False
        if err is None and ds is None and mode > 3 and a["err"] and not a["refused"]:
            err = "nothing to read"
        if err is None and a["err"]:
            self.bad("not-refused", what + "should be refused", done)
            return False
        if err is not None:
            self.count("refused" if a["refused"] else "stopped at a pair")
        # what is there
        tree = self.listing()
        want = {(g, s) for g, s, _ in a["file"]}
        if tree != want:
            self.bad("names", what + f"the file has {sorted(tree)}, specified {sorted(want)} ({err!r})", done)
            return False
        new = {x["id"]: x for x in a["new"]}
        for g, s, i in a["file"]:
            u = self.read(g, s)
            if i in new:
                if not self.content(a, new[i], u, full, sfull, cals, kw, what + f"{g}/{s}: ", done):
                    return False
                self.known[i] = u
            elif i in self.known and same(u, self.known[i]) is not None or i in self.known and u.history != self.known[i].history:
                self.bad("untouched", what + f"{g}/{s} stored before is now different: {same(u, self.known[i])}", done)
                return False
            else:
                self.count("older spectra compared")
        return True

    @staticmethod
    def arguments(kw):
        """what a run was given besides data"""
        b = kw["beam"]
        return (repr({k: v for k, v in kw.items() if k not in ("beam", "cosmo", "cals", "dsets_std")}),
                None if b is None else (id(b), id(b.cosmo), b.cosmo.H0, b.primary_beam.tobytes() if hasattr(b, "primary_beam") and hasattr(b.primary_beam, "tobytes") else 0),
                None if kw["cosmo"] is None else kw["cosmo"].H0)

    def listing(self):
        if not os.path.exists(self.file):
            return set()
        psc = self.hp.container.PSpecContainer(self.file, mode="r", keep_open=False, tsleep=0)
        return {(g, s) for g in psc.groups() for s in psc.spectra(g)}

    def read(self, g, s):
        psc = self.hp.container.PSpecContainer(self.file, mode="r", keep_open=False, tsleep=0)
        return psc.get_pspec(g, s)

    # ------------------------------------------------------------------ what it should hold
    def prepared(self, a, full, sfull, cals, kw):
        """the data sets the specification says the run works on, made here"""
        r = a["r"]
        d, s = [], []
        for n, u in enumerate(full):
            u = copy.deepcopy(u)
            v = copy.deepcopy(sfull[n]) if sfull else None
            for x in (u, v):
                if x is not None and cals[n] is not None:
                    self.calibrated(x, cals[n], kw["cal_flag"])
            d.append(u)
            s.append(v)
        out, outs = [], []
        for w in a["work"]:
            i = r["sets"].index(w["d"])
            for x, to in ((d[i], out), (s[i], outs)):
                if x is None:
                    to.append(None)
                    continue
                t = np.unique(x.time_array)
                t0 = self.start[w["d"]]
                to.append(x.select(times=t[[k - t0 for k in w["t"]]], inplace=False))
        ds = self.hp.PSpecData(dsets=out, wgts=[None] * len(out), labels=list(a["labels"]), dsets_std=outs, beam=self.beam_of(kw))
        if kw["rephase_to_dset"] is not None:
            ds.rephase_to_dset(kw["rephase_to_dset"])
        if kw["broadcast_dset_flags"]:
            ds.broadcast_dset_flags(time_thresh=kw["time_thresh"], spw_ranges=kw["spw_ranges"])
        if kw["Jy2mK"]:
            ds.Jy_to_mK()
        return ds

    @staticmethod
    def beam_of(kw):
        b = kw["beam"]
        if b is not None and kw["cosmo"] is not None:
            b = copy.copy(b)
            b.cosmo = kw["cosmo"]
        return b

    PASS = ("symmetric_taper", "n_dlys", "r_params", "store_cov", "store_cov_diag", "input_data_weight", "exact_norm", "sampling", "return_q",
            "cov_model", "norm", "taper", "history", "filter_extensions", "store_window")

    def estimate(self, ds, p, pairs, pols, kw):
        o = dict(store_window=True, symmetric_taper=True, cov_model="empirical")
        o.update({k: kw[k] for k in self.PASS if k in kw})
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return ds.pspec([x[0] for x in pairs], [x[1] for x in pairs], (p[0] - 1, p[1] - 1), pols, spw_ranges=kw["spw_ranges"],
                            verbose=False, **o)

    def polpairs(self, x):
        return sorted(tuple(q) for q in x["pols"])

    def reference_error(self, a, full, sfull, cals, kw):
        try:
            ds = self.prepared(a, full, sfull, cals, kw)
        except REFUSE as exc:
            return exc
        for x in a["new"]:
            pairs = [tup(y) for y in x["list"]] or [tup(m[0]) for m in x["must"]]
            for q in self.polpairs(x):
                try:
                    self.estimate(copy.deepcopy(ds), x["p"], pairs, [q], kw)
                except REFUSE as exc:
                    return exc
        return None

    def content(self, a, x, u, full, sfull, cals, kw, what, done):
        r = a["r"]
        got = []
        for b in u.blpair_array:
            p = tuple(tuple(int(i) for i in y) for y in u.blpair_to_antnums(b))
            if p not in got:
                got.append(p)
        def along(p):
            return tuple(b if b[0] <= b[1] else b[::-1] for b in p)
        if r["given"]:
            if sorted(got) != sorted(tup(y) for y in x["list"]):
                self.bad("pairs", what + f"baseline-pairs {got}, specified {x['list']}", done)
                return False
        else:
            una = [along(p) for p in got]
            may = {tup(y) for y in x["may"]}
            must = [{tup(y) for y in m} for m in x["must"]]
            if any(sum(p in m for p in una) != 1 for m in must) or not set(una) <= may or len(set(una)) != len(una):
                self.bad("pairs", what + f"baseline-pairs {got}, specified {must}", done)
                return False
        code = {"xx": -5, "yy": -6}
        import hera_pspec.uvpspec_utils as uu
        pp = {tuple(uu.polpair_int2tuple(int(k), pol_strings=False)) for k in u.polpair_array}
        if pp != {(code[q[0]], code[q[1]]) for q in x["pols"]} or len(u.polpair_array) != len(x["pols"]):
            self.bad("polarizations", what + f"polarization pairs {pp}, specified {x['pols']}", done)
            return False
        # the integrations
        self.count("spectra compared")
        ds = self.prepared(a, full, sfull, cals, kw)
        w1, w2 = (a["work"][k - 1] for k in x["p"])
        src = [np.unique(full[r["sets"].index(w["d"])].time_array) for w in (w1, w2)]
        t1, t2 = (s[[k - self.start[w["d"]] for k in w["t"]]] for s, w in zip(src, (w1, w2)))
        for b in np.unique(u.blpair_array):
            i = u.blpair_array == b
            if not np.array_equal(u.time_1_array[i], t1) or not np.array_equal(u.time_2_array[i], t2):
                self.bad("integrations", what + f"times {u.time_1_array[i]} {u.time_2_array[i]}, specified {t1} {t2}", done)
                return False
        order = [tuple({-5: "xx", -6: "yy"}[z] for z in uu.polpair_int2tuple(int(k), pol_strings=False)) for k in u.polpair_array]
        try:
            ref = self.estimate(ds, x["p"], got, order, kw)
        except REFUSE as exc:
            self.bad("content", what + f"stored, although the estimate fails with {exc!r}", done)
            return False
        f = same(u, ref)
        if f is not None:
            self.bad("content:" + f, what + f"{f} is {getattr(u, f, None)!r}, from the data sets specified {getattr(ref, f, None)!r}", done)
            return False
        if kw.get("history") and kw["history"] not in u.history:
            self.bad("history", what + "the history given is not in that of the spectrum", done)
            return False
        if r["opt"] == 1 and not r["beam"] and not self.fourier(u, ds, x["p"]):
            self.bad("visibilities", what + "the bandpowers are not those of the visibilities", done)
            return False
        return True

    def fourier(self, u, ds, p):
        import hera_pspec.uvpspec_utils as uu
        for spw in range(u.Nspws):
            fr = u.freq_array[u.spw_to_freq_indices(spw)]
            for j, pk in enumerate(u.polpair_array):
                q = uu.polpair_int2tuple(int(pk), pol_strings=False)
                for b in np.unique(u.blpair_array):
                    bls = u.blpair_to_antnums(b)
                    ft = []
                    for k in (0, 1):
                        d = ds.dsets[p[k] - 1]
                        bl = tuple(int(z) for z in bls[k])
                        con = not np.any((d.ant_1_array == bl[0]) & (d.ant_2_array == bl[1]))
                        i = np.where((d.ant_1_array == bl[con]) & (d.ant_2_array == bl[1 - con]))[0]
                        i = i[np.argsort(d.time_array[i])]
                        c = np.isin(d.freq_array, fr)
                        m = list(d.polarization_array).index(q[k])
                        y = d.data_array[i][:, c, m]
                        f = d.flag_array[i][:, c, m]
                        y = y.conj() if con else y
                        y = y * (~f).any(axis=0)
                        n = y.shape[1]
                        ft.append(np.array([(y * np.exp(-2j * np.pi * (z - n // 2) * np.arange(n) / n)).sum(axis=1) for z in range(n)]).T)
                    want = 0.5 * ft[0].conj() * ft[1]
                    got = u.data_array[spw][u.blpair_array == b, :, j]
                    if not np.allclose(got, want, rtol=1e-6, atol=1e-8 * np.abs(want).max(initial=0.0)):
                        return False
        self.count("independent transforms")
        return True

    def put(self, a):
        from .. import uvp
        u = uvp.build(uvp.Obj([a["id"] % 4], [(0, 0), (1, 1)], [0], src=a["id"] % 5))
        psc = self.hp.container.PSpecContainer(self.file, mode="rw", keep_open=False, tsleep=0)
        psc.set_pspec(group=a["group"], psname=a["name"], pspec=u, overwrite=True)
        self.known[a["id"]] = u

    def run(self, traces):
        for n, tr in enumerate(traces):
            self.dir = tempfile.mkdtemp(prefix="vf_r01_")
            try:
                self.file = os.path.join(self.dir, "out.h5")
                self.known, self.npool = {}, 0
                done = []
                for a in tr:
                    done.append(a)
                    if a["op"] == "make":
                        self.make(a)
                        self.start = {i + 1: s["t0"] for i, s in enumerate(a["sets"])}
                    elif a["op"] == "put":
                        self.put(a)
                    elif a["op"] == "run" and not self.run_it(a, done):
                        break
            finally:
                shutil.rmtree(self.dir, ignore_errors=True)
        return dict(violations=self.viol, counts=self.counts, samples=[[a["op"] for a in tr] for tr in traces[:1]])


def work(item):
    seed, traces = item
    with contextlib.redirect_stdout(io.StringIO()):
        return Replay(seed).run(traces)


def run(chk):
    import hera_pspec  # noqa: F401
    from .. import uvd
    traces = core.simulate_traces(chk, "Pipeline", {}, 1500 if chk.thorough else 120, 8)
    uvd.build(bls=[(0, 1)], pols=["xx"], ntimes=3, nfreq=NF, t0=0, autos=(0,))  # tables of the time system, shared
    items = [(chk.seed * 100 + i, c) for i, c in enumerate(core.chunks(traces, 32))]
    for res in core.pmap(work, items):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
