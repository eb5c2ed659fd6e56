"""Synthetic power-spectrum objects whose every cell carries the identity of its origin, and the projection
of a real UVPSpec object back onto the state of the specification.

Universe.  Spectral windows, baseline-pairs, time pairs and polarization pairs are identified by small
integers.  A payload is an exactly representable number drawn by hashing (array, source object, window,
baseline-pair, time pair, polarization pair, index), so that a value found in the wrong place is recognised, and all
payloads are of the same magnitude, so that computed values differ visibly, too, when a wrong one enters."""
import copy
import functools
import itertools

import numpy as np
from hera_pspec import conversions, uvpspec, uvpspec_utils

# ------------------------------------------------------------------ universe
# id -> (first channel frequency, Nfreqs, Ndlys)
SPW = {0: (110e6, 6, 6), 1: (120e6, 5, 4), 2: (130e6, 8, 8), 3: (140e6, 7, 7), 4: (120e6, 4, 4), 5: (150e6, 12, 12)}
DF = 0.1e6
# first and second baseline of each pair; antennas differ in every position somewhere
BLP = {0: ((1, 2), (1, 2)), 1: ((1, 2), (2, 3)), 2: ((2, 3), (3, 4)), 3: ((1, 3), (2, 4)), 4: ((2, 3), (1, 2)),
       5: ((2, 4), (1, 3)), 6: ((1, 2), (1, 3)), 7: ((3, 4), (3, 4))}
BLS = {(1, 2): (14.6, 0.1, 0.0), (2, 3): (14.6, 0.2, 0.0), (3, 4): (14.5, 0.0, 0.1), (1, 3): (29.2, 0.3, 0.0),
       (2, 4): (29.1, 0.2, 0.1)}
CAD = 1.0 / 86400
JD0 = 2458042.1
# time pairs (dataset 1 sample, dataset 2 sample): shared first time, shared second time, plain ones
TP = {0: (0, 0), 1: (1, 1), 2: (2, 2), 3: (3, 3), 4: (0, 1), 5: (1, 2), 6: (0, 2)}
POL = {0: ("xx", "xx"), 1: ("yy", "yy"), 2: ("xx", "yy"), 3: ("pI", "pI")}
POLI = {0: 1515, 1: 1414, 2: 1514, 3: 2121}
LABELS = ["dA", "dB", "dC"]
STATS = ["err", "noise_1_of_2"]
NKP, NKL = 3, 4  # exact window grid

ARR = dict(data=1, wgt=2, integ=3, nsamp=4, covr=5, covi=6, win=7, kperp=8, kpara=9, scalar=10, omP=11, omPP=12,
           err=13, noise_1_of_2=14)


def jd(k):
    return JD0 + k * CAD


def lst(t):
    """local sidereal time; it wraps within the universe"""
    return (2 * np.pi + (t - JD0 - 1.3 * CAD) * 2 * np.pi * 1.00273790935) % (2 * np.pi)


def blp_int(b):
    (a, c), (d, e) = BLP[b]
    return ((a + 100) * 1000 + c + 100) * 10**6 + (d + 100) * 1000 + e + 100


def bl_int(bl):
    return (bl[0] + 100) * 1000 + bl[1] + 100


def code(arr, src, s, b, t, p):
    return ((((((ARR[arr] * 8 + src) * 8 + s) * 8 + b) * 8 + t) * 4) + p) * 1024.0


def payload(arr, src, s, b, t, p):
    """The payload of one cell: the array slice over the trailing axes."""
    if not isinstance(src, int):
        return value(arr, src, s, b, t, p, False)
    return leaf(arr, src, s, b, t, p)


def _hash(c, shape, salt=0):
    """integers in [2^19, 2^20), one for each index of the shape"""
    x = np.arange(int(np.prod(shape)), dtype=np.uint64) + np.uint64(int(c) * 1024 + salt * 512)
    with np.errstate(over="ignore"):
        x = (x + np.uint64(0x9E3779B97F4A7C15)) * np.uint64(0xBF58476D1CE4E5B9)
        x = (x ^ (x >> np.uint64(30))) * np.uint64(0x94D049BB133111EB)
        x = (x ^ (x >> np.uint64(27))) * np.uint64(0xD6E8FEB86659FD93)
        x ^= x >> np.uint64(31)
    return (2**19 + (x % np.uint64(2**19)).astype(float)).reshape(shape)


@functools.lru_cache(maxsize=200000)
def leaf(arr, src, s, b, t, p):
    nf, nd = SPW[s][1], SPW[s][2]
    c = code("win" if arr == "xwin" else arr, src, s, b, t, p) / 1024
    if arr == "noise_1_of_2":  # a real statistic
        x = _hash(c, (nd,)) + 0j
    elif arr in ("data",) or arr in STATS:
        x = _hash(c, (nd,)) + 1j * _hash(c, (nd,), 1)
    else:
        shape = {"wgt": (nf, 2), "covr": (nd, nd), "covi": (nd, nd), "win": (nd, nd), "xwin": (nd, NKP, NKL)}.get(arr)
        if shape is None:
            return float(_hash(c, (1,))[0])
        x = _hash(c, shape)
    x.flags.writeable = False
    return x


def xpayload(src, s, b, t, p):
    if not isinstance(src, int):
        return value("xwin", src, s, b, t, p, False)
    return leaf("xwin", src, s, b, t, p)


def wfgrid(arr, s, p):
    n = NKP if arr == "kperp" else NKL
    return code(arr, 0, s, 0, 0, p) + np.arange(n)


def scalar(s, p):
    return code("scalar", 0, s, 0, 0, p) / 1024.0


# ------------------------------------------------------------------ derived values (terms of specs/Chain.tla)
def exact_value(src):
    """is the value copied (never computed)?"""
    return isinstance(src, int) or src[0] == "src"


def kmag(c, s, b, little_h=True):
    """magnitude of the wave vectors of a window and baseline-pair in cosmology c"""
    z = COSMO[c].f2z(np.mean(freqs(s)))
    sep = np.mean([np.linalg.norm(BLS[bl]) for bl in BLP[b]])
    kperp = sep * COSMO[c].bl_to_kperp(z, little_h=little_h)
    kpara = dlys(s) * COSMO[c].tau_to_kpara(z, little_h=little_h)
    return np.sqrt(kperp**2 + kpara**2)


_SCALARS = {}


def scalar_in(c, s, p):
    """normalization scalar adopted: as built (c = 0), or recomputed for cosmology c"""
    if c == 0:
        return scalar(s, p)
    if (c, s, p) not in _SCALARS:
        from hera_pspec import pspecbeam
        op = np.array([code("omP", 0, 0, 0, 0, p) + j for j in range(5)])
        opp = np.array([code("omPP", 0, 0, 0, 0, p) + j for j in range(5)])
        _SCALARS[c, s, p] = pspecbeam._compute_pspec_scalar(COSMO[c], np.linspace(100e6, 200e6, 5), opp / op**2, freqs(s),
                                                            num_steps=1000, taper="none", little_h=True, noise_scalar=False)
    return _SCALARS[c, s, p]


def fold_array(arr, x, s):
    """what folding makes of one array of one cell: the positive delays, each the mean with its mirror"""
    if arr in ("integ", "wgt"):
        return x
    if arr == "nsamp":
        return 2 * x
    nd = SPW[s][2]
    z = nd // 2
    n = nd - z - 1
    pos = [z + j for j in range(1, n + 1)]
    neg = [z - j for j in range(1, n + 1)]
    if arr in ("data", "xwin"):
        return 0.5 * (x[pos] + x[neg])
    if arr in STATS:
        return (1 / x[pos] ** 2 + 1 / x[neg] ** 2) ** -0.5
    # matrices: both axes
    return 0.25 * sum(x[np.ix_(i, j)] for i in (pos, neg) for j in (pos, neg))


def value(arr, v, s, b, t, p, fold):
    """the array of a cell with value v; fold: of the folded object (positive delays only)"""
    kind = "src" if isinstance(v, int) else v[0]
    if kind in ("sub", "avg", "acov") and fold and not v[1]:  # folded after it was formed
        return fold_array(arr, value(arr, v, s, b, t, p, False), s)
    if kind == "src":
        x = leaf(arr, v if isinstance(v, int) else v[1], s, b, t, p)
        return fold_array(arr, x, s) if fold else x
    nd = SPW[s][2]
    cut = slice(nd // 2 + 1, None) if fold else slice(None)
    if kind == "bias":
        x = value(arr, v[3], s, b, t, p, fold)
        kt, kd = v[1], v[2]
        f = {"data": kt + kd, "covr": 2 * kt, "covi": 2 * kt, "err": kt, "noise_1_of_2": kt}.get(arr, 0)
        return x * 2.0**f
    if kind == "dsq":
        x = value(arr, v[2], s, b, t, p, fold)
        k = (kmag(v[1], s, b) ** 3 / (2 * np.pi**2))[cut]
        if arr == "data" or arr in STATS:
            return x * k
        if arr in ("covr", "covi"):
            return x * k[:, None] * k[None, :]
        return x
    if kind == "cosmo":
        x = value(arr, v[3], s, b, t, p, fold)
        return x * (scalar_in(v[2], s, p) / scalar_in(v[1], s, p)) if arr == "data" else x
    if kind == "acov":
        if arr == "covi":
            return np.zeros((nd, nd))[cut, cut]
        if arr == "covr":
            from hera_pspec import noise
            e = np.real(value("noise_1_of_2", v[2], s, b, t, p, v[1]))
            return np.outer(e, e) * noise.get_approximate_delay_delay_corr_matrix("blackmanharris", SPW[s][1])[cut, cut]
        return value(arr, v[2], s, b, t, p, fold)
    if kind == "sub":
        _, f, v1, t2, v2, mates = v
        x, y = value(arr, v1, s, b, t, p, f), value(arr, v2, s, b, t2, p, f)
        if arr == "data":
            return x - y
        if arr in STATS:
            return np.sqrt(x.real**2 + y.real**2) + 1j * np.sqrt(x.imag**2 + y.imag**2)
        if arr in ("covr", "covi", "win", "xwin"):
            return np.sqrt(x**2 + y**2)
        with np.errstate(all="ignore"):
            inv = lambda g, h: np.sqrt(1 / (1 / np.asarray(g, float) ** 2 + 1 / np.asarray(h, float) ** 2))
            z = inv(x, y)
            if arr == "wgt":
                z = z / max(np.max(inv(value(arr, m[1], s, b, m[0], p, f), value(arr, m[3], s, b, m[2], p, f))) for m in mates)
        return z
    assert kind == "avg", v
    f, mem = v[1], v[2]
    get = lambda a: [value(a, m[2], s, m[0], m[1], p, f) for m in mem]
    w = [i**2 * n for i, n in zip(get("integ"), get("nsamp"))]
    W = sum(w)
    if arr == "nsamp":
        return sum(get(arr))
    if arr in ("covr", "covi"):
        return sum(k**2 * x for k, x in zip(w, get(arr))) / W**2
    return sum(k * x for k, x in zip(w, get(arr))) / W


def labels_of(src, s, b, t, p):
    """labels of the two data sets of a cell; the mix varies along every axis"""
    if not isinstance(src, int):
        while src[0] != "src":
            src = src[{"bias": 3, "dsq": 2, "cosmo": 3, "acov": 2, "sub": 2}[src[0]]] if src[0] != "avg" else src[2][0][2]
        src = src[1]
    return LABELS[(s + b + 2 * t + p + src) % 3], LABELS[(s + 2 * b + t + p) % 3]


def freqs(s):
    f0, nf, nd = SPW[s]
    return f0 + DF * np.arange(nf)


def dlys(s):
    f0, nf, nd = SPW[s]
    return np.fft.fftshift(np.fft.fftfreq(nd, d=DF))


COSMO = {1: conversions.Cosmo_Conversions(), 2: conversions.Cosmo_Conversions(Om_L=0.7)}


class Obj:
    """Abstract object: what the specification says a UVPSpec contains.

    spws: list of window ids in index order; rows: set of (b, t); pols: set; src: fn(s,b,t,p) -> source id
    """

    def __init__(self, spws, rows, pols, src=0, stats=(), cov=False, win=None, beam=False, rowlist=None, polarr=None,
                 meta=False, folded=False, static=0, rpar=False, dsq=0, cosmo=0, scal=0):
        self.dsq, self.cosmo, self.scal = dsq, cosmo, scal
        self.folded, self.static, self.rpar = folded, static, rpar
        self.spws = list(spws)
        self.rows = set(tuple(r) for r in rows)
        self.pols = set(pols)
        self._src = src
        self.stats, self.cov, self.win, self.beam = tuple(stats), cov, win, beam
        self.rowlist = rowlist or sorted(self.rows)
        self.polarr = polarr or sorted(self.pols)
        self.meta = meta

    def src(self, s, b, t, p):
        if callable(self._src):
            return self._src(s, b, t, p)
        return self._src


# fixed metadata that must agree between objects that are combined: variant -> (attribute, value)
STATIC = {1: ("vis_units", "Jy"), 2: ("weighting", "dayenu"), 3: ("taper", "hann"), 4: ("norm", "V^-1/2"),
          5: ("norm_units", "Hz str"), 6: ("beamfile", "other.fits"), 7: ("symmetric_taper", False),
          8: ("telescope_location", np.array([5109325.0, 2005235.0, -3239928.0])),
          9: ("channel_width", np.full(20, 2e5)), 10: ("beam_freqs", np.linspace(110e6, 190e6, 5)),
          11: ("cosmo", COSMO[2])}
DEFAULT = {"vis_units": "mK", "weighting": "identity", "taper": "none", "norm": "I", "norm_units": "h^-3 Mpc^3",
           "beamfile": "beam.fits", "symmetric_taper": True,
           "telescope_location": np.array([5109325.85521063, 2005235.09142983, -3239928.42475397]),
           "channel_width": np.full(20, DF), "beam_freqs": np.linspace(100e6, 200e6, 5)}
RPREFIX = ((),)  # data-set part of the keys of weighting parameters: none, or one per data set


def rparams(o):
    """weighting parameters of exactly the (baseline, polarization) combinations in use"""
    keys = set()
    for b in set(b for b, t in o.rows):
        for p in o.pols:
            for i in (0, 1):
                keys.add(BLP[b][i] + (POL[p][i],))
    return {pre + k: {"filter_centers": [0.0], "filter_half_widths": [1e-7 * (k[0] % 2 + 1)], "filter_factors": [1e-9]}
            for k in sorted(keys) for pre in RPREFIX}


def build(o, history="h", weighting="identity", r_params=None, folded=False, unit="mK", cosmo=None):
    """Construct the real UVPSpec described by o (row order o.rowlist, pol order o.polarr)."""
    u = uvpspec.UVPSpec()
    rows, pols, spws = [tuple(r) for r in o.rowlist], list(o.polarr), list(o.spws)
    nb, npol, nspw = len(rows), len(pols), len(spws)
    u.Nspws, u.Npols, u.Nbltpairs = nspw, npol, nb
    u.spw_array = np.arange(nspw).astype(np.uint16)
    u.freq_array = np.concatenate([freqs(s) for s in spws])
    u.dly_array = np.concatenate([dlys(s) for s in spws])
    u.spw_freq_array = np.concatenate([np.full(SPW[s][1], i) for i, s in enumerate(spws)]).astype(np.uint16)
    u.spw_dly_array = np.concatenate([np.full(SPW[s][2], i) for i, s in enumerate(spws)]).astype(np.uint16)
    u.Nfreqs = len(np.unique(u.freq_array))
    u.Ndlys = len(np.unique(u.dly_array))
    u.Nspwfreqs, u.Nspwdlys = len(u.freq_array), len(u.dly_array)
    u.channel_width = np.full(20, DF)  # of the whole band of the data set
    u.blpair_array = np.array([blp_int(b) for b, t in rows], dtype=np.int64)
    u.time_1_array = np.array([jd(TP[t][0]) for b, t in rows])
    u.time_2_array = np.array([jd(TP[t][1]) for b, t in rows])
    u.time_avg_array = 0.5 * (u.time_1_array + u.time_2_array)
    u.lst_1_array, u.lst_2_array, u.lst_avg_array = lst(u.time_1_array), lst(u.time_2_array), lst(u.time_avg_array)
    u.Ntpairs = len(set(t for b, t in rows))
    u.Ntimes = u.Ntpairs
    u.Nblpairs = len(set(b for b, t in rows))
    bls = sorted(set(bl for b, t in rows for bl in BLP[b]))
    u.bl_array = np.array([bl_int(bl) for bl in bls], dtype=np.int32)
    u.bl_vecs = np.array([BLS[bl] for bl in bls])
    u.Nbls = len(bls)
    u.polpair_array = np.array([POLI[p] for p in pols], dtype=np.int32)
    u.scalar_array = np.array([[scalar(s, p) for p in pols] for s in spws])
    used = sorted(set(x for s in spws for b, t in rows for p in pols for x in labels_of(o.src(s, b, t, p), s, b, t, p)))
    u.labels = np.array(used)
    l1 = np.zeros((nspw, nb, npol), dtype=np.int32)
    l2 = np.zeros((nspw, nb, npol), dtype=np.int32)
    arrs = dict(data_array={}, wgt_array={}, integration_array={}, nsample_array={})
    if o.cov:
        arrs.update(cov_array_real={}, cov_array_imag={})
    if o.win:
        arrs["window_function_array"] = {}
    if o.win == "exact":
        arrs.update(window_function_kperp={}, window_function_kpara={})
    stats = {st: {} for st in o.stats}
    for i, s in enumerate(spws):
        nf, nd = SPW[s][1], SPW[s][2]
        d = np.zeros((nb, nd, npol), complex)
        w = np.zeros((nb, nf, 2, npol))
        it = np.zeros((nb, npol))
        ns = np.zeros((nb, npol))
        cr, ci = np.zeros((nb, nd, nd, npol)), np.zeros((nb, nd, nd, npol))
        wf = np.zeros((nb, nd, NKP, NKL, npol)) if o.win == "exact" else np.zeros((nb, nd, nd, npol))
        ss = {st: np.zeros((nb, nd, npol), complex) for st in o.stats}
        for r, (b, t) in enumerate(rows):
            for q, p in enumerate(pols):
                sr = o.src(s, b, t, p)
                k = (sr, s, b, t, p)
                d[r, :, q] = payload("data", *k)
                w[r, :, :, q] = payload("wgt", *k)
                it[r, q] = payload("integ", *k)
                ns[r, q] = payload("nsamp", *k)
                if o.cov:
                    cr[r, :, :, q] = payload("covr", *k)
                    ci[r, :, :, q] = payload("covi", *k)
                if o.win == "exact":
                    wf[r, ..., q] = xpayload(*k)
                elif o.win:
                    wf[r, :, :, q] = payload("win", *k)
                for st in o.stats:
                    ss[st][r, :, q] = payload(st, *k)
                a, c = labels_of(*k)
                l1[i, r, q], l2[i, r, q] = used.index(a), used.index(c)
        arrs["data_array"][i], arrs["wgt_array"][i] = d, w
        arrs["integration_array"][i], arrs["nsample_array"][i] = it, ns
        if o.cov:
            arrs["cov_array_real"][i], arrs["cov_array_imag"][i] = cr, ci
        if o.win:
            arrs["window_function_array"][i] = wf
        if o.win == "exact":
            arrs["window_function_kperp"][i] = np.array([wfgrid("kperp", s, p) for p in pols]).T.copy()
            arrs["window_function_kpara"][i] = np.array([wfgrid("kpara", s, p) for p in pols]).T.copy()
        for st in o.stats:
            stats[st][i] = ss[st]
    for k, v in arrs.items():
        setattr(u, k, v)
    if o.stats:
        u.stats_array = stats
    u.label_1_array, u.label_2_array = l1, l2
    if o.beam:
        u.beam_freqs = np.linspace(100e6, 200e6, 5)
        u.OmegaP = np.array([[code("omP", 0, 0, 0, 0, p) + j for p in pols] for j in range(5)])
        u.OmegaPP = np.array([[code("omPP", 0, 0, 0, 0, p) + j for p in pols] for j in range(5)])
    u.exact_windows = o.win == "exact"
    u.cov_model = "dsets"
    u.history = history
    u.vis_units, u.norm_units = unit, "h^-3 Mpc^3"
    u.weighting, u.taper, u.norm = weighting, "none", "I"
    u.beamfile = "beam.fits"
    u.symmetric_taper = True
    u.folded = folded
    u.telescope_location = np.array([5109325.85521063, 2005235.09142983, -3239928.42475397])
    if cosmo or o.cosmo:  # expensive to rebuild on every read, so only on request
        u.cosmo = copy.deepcopy(COSMO[cosmo or o.cosmo])
    if o.static:
        setattr(u, *STATIC[o.static])
    if o.rpar:
        r_params = rparams(o)
    if r_params is None:
        u.r_params = ""
    else:
        u.r_params = uvpspec_utils.compress_r_params(copy.deepcopy(r_params))
    u.check()
    if o.folded:
        u.fold_spectra()
    return u


BLP_OF_INT = {blp_int(b): b for b in BLP}
POL_OF_INT = {v: k for k, v in POLI.items()}


def row_ids(u):
    """(b, t) of every row of a real object; None where the row is not one of the universe."""
    out = []
    for x, t1, t2 in zip(u.blpair_array, u.time_1_array, u.time_2_array):
        b = BLP_OF_INT.get(int(x))
        k1, k2 = round((t1 - JD0) / CAD), round((t2 - JD0) / CAD)
        t = None
        if abs(jd(k1) - t1) < 1e-9 and abs(jd(k2) - t2) < 1e-9:
            for k, v in TP.items():
                if v == (k1, k2):
                    t = k
        out.append((b, t))
    return out


def spw_ids(u):
    out = []
    for i in range(int(u.Nspws)):
        f = np.asarray(u.freq_array)[np.asarray(u.spw_freq_array) == i]
        d = np.asarray(u.dly_array)[np.asarray(u.spw_dly_array) == i]
        hit = None
        for s in SPW:
            if len(f) == SPW[s][1] and len(d) == SPW[s][2] and np.allclose(f, freqs(s), rtol=1e-12, atol=0) and \
                    np.allclose(d, dlys(s), rtol=1e-9, atol=1e-13):
                hit = s
        out.append(hit)
    return out


def diff(u, o, what=None, label="object", order=True):
    """Compare a real object with the abstract one.  Returns a list of (clause, text)."""
    bad = []

    def add(clause, text):
        if len(bad) < 12:
            bad.append((clause, f"{label}: {text}"))

    def num(name, want):
        got = getattr(u, name, None)
        if got is None or int(got) != want:
            add("count", f"{name} = {got}, expected {want}")

    try:
        sp = spw_ids(u)
    except Exception as exc:
        return [("axis-windows", f"{label}: windows unreadable: {type(exc).__name__}: {exc}")]
    if sp != o.spws and (order or sorted(map(str, sp)) != sorted(map(str, o.spws))):
        add("axis-windows", f"windows {sp}, expected {o.spws}")
        return bad
    if list(np.asarray(u.spw_array)) != list(range(len(sp))):
        add("axis-windows", f"spw_array {u.spw_array}")
    rows = row_ids(u)
    if sorted(map(str, rows)) != sorted(map(str, o.rows)):
        add("axis-rows", f"rows {sorted(map(str, rows))}, expected {sorted(map(str, o.rows))}")
        return bad
    pols = [POL_OF_INT.get(int(x)) for x in u.polpair_array]
    if sorted(map(str, pols)) != sorted(map(str, o.pols)):
        add("axis-pols", f"pols {pols}, expected {sorted(o.pols)}")
        return bad
    nb, npol, nspw = len(rows), len(pols), len(sp)
    num("Nspws", nspw), num("Npols", npol), num("Nbltpairs", nb)
    num("Nblpairs", len(set(b for b, t in rows)))
    num("Ntpairs", len(set(t for b, t in rows)))
    # documented as the number of time pairs; the number of distinct times is accepted too
    if int(u.Ntimes) not in (len(set(t for b, t in rows)), len(set(x for b, t in rows for x in TP[t]))):
        num("Ntimes", len(set(t for b, t in rows)))
    num("Nspwfreqs", sum(SPW[s][1] for s in sp)), num("Nspwdlys", sum(SPW[s][2] for s in sp))
    num("Nfreqs", len(np.unique(np.concatenate([freqs(s) for s in sp]))))
    num("Ndlys", len(np.unique(np.concatenate([dlys(s) for s in sp]))))
    for nm, ax in (("freq_array", u.spw_freq_array), ("dly_array", u.spw_dly_array)):
        if len(getattr(u, nm)) != len(ax):
            add("axis-windows", f"{nm} and its window index differ in length")
    want = dict(DEFAULT)
    if not o.beam:
        want.pop("beam_freqs")
    if o.static:
        want.update([STATIC[o.static]])
    if o.cosmo:
        want["cosmo"] = COSMO[o.cosmo]
    want["norm_units"] += " k^3 / (2pi^2)" * o.dsq
    for nm, w in want.items():
        if not same(getattr(u, nm, None), w):
            add("static", f"{nm} is {getattr(u, nm, None)}, expected {w}")
    if hasattr(u, "cosmo") != ("cosmo" in want):
        add("static", "cosmology " + ("appeared" if hasattr(u, "cosmo") else "lost"))
    if bool(u.folded) != o.folded:
        add("static", f"folded is {u.folded}, expected {o.folded}")
    rp = u.get_r_params()
    want = rparams(o) if o.rpar else {}
    if rp != want:
        add("r_params", f"weighting parameters for {sorted(map(str, rp))[:6]}, expected {sorted(map(str, want))[:6]}")
    t1, t2 = np.array([jd(TP[t][0]) for b, t in rows]), np.array([jd(TP[t][1]) for b, t in rows])
    ta = 0.5 * (t1 + t2)
    for nm, w in (("time_avg_array", ta), ("lst_1_array", lst(t1)), ("lst_2_array", lst(t2)), ("lst_avg_array", lst(ta))):
        g = np.asarray(getattr(u, nm))
        if g.shape != w.shape or not np.allclose(g, w, rtol=0, atol=1e-8):
            add("axis-times", f"{nm} wrong for rows {[r for r, x, y in zip(rows, g, w) if abs(x - y) > 1e-8][:4] if g.shape == w.shape else g.shape}")
    bls = sorted(set(bl for b, t in rows for bl in BLP[b]))
    got = {int(x): tuple(v) for x, v in zip(u.bl_array, u.bl_vecs)} if len(u.bl_array) == len(u.bl_vecs) else None
    want = {bl_int(bl): BLS[bl] for bl in bls}
    if got is None or set(got) != set(want) or any(not np.allclose(got[k], want[k]) for k in want):
        add("axis-baselines", f"baselines {got}, expected {want}")
    num("Nbls", len(bls))

    def cmp(arr, got, want, where, tol=0):
        got = np.asarray(got)
        if got.shape != np.shape(want):
            add(arr, f"{arr} at {where}: shape {got.shape}, expected {np.shape(want)}")
        elif not (np.array_equal(got, want) or tol and np.allclose(got, want, rtol=tol, atol=0)):
            add(arr, f"{arr} at {where}: {got.ravel()[:4]}, expected {np.ravel(want)[:4]}")

    sc = np.asarray(u.scalar_array)
    if sc.shape != (nspw, npol):
        add("scalar", f"scalar_array shape {sc.shape}, expected {(nspw, npol)}")
    else:
        cmp("scalar", sc, np.array([[scalar_in(o.scal, s, p) for p in pols] for s in sp]), f"windows {sp} pols {pols}",
            1e-9 if o.scal else 0)
    if o.beam:
        for nm, a in (("OmegaP", "omP"), ("OmegaPP", "omPP")):
            if not hasattr(u, nm):
                add("beam", f"{nm} missing")
            else:
                cmp("beam", getattr(u, nm), np.array([[code(a, 0, 0, 0, 0, p) + j for p in pols] for j in range(5)]),
                    f"{nm} pols {pols}")
    labs = [x.decode() if isinstance(x, bytes) else str(x) for x in u.labels]
    for nm, w in (("label_1_array", 0), ("label_2_array", 1)):
        la = np.asarray(getattr(u, nm))
        if la.shape != (nspw, nb, npol):
            add("labels", f"{nm} shape {la.shape}, expected {(nspw, nb, npol)}")
            continue
        for i, s in enumerate(sp):
            for r, (b, t) in enumerate(rows):
                for q, p in enumerate(pols):
                    want = labels_of(o.src(s, b, t, p), s, b, t, p)[w]
                    k = int(la[i, r, q])
                    if not 0 <= k < len(labs) or labs[k] != want:
                        add("labels", f"{nm} at window {s} row {(b, t)} pol {p}: {labs[k] if 0 <= k < len(labs) else k}, expected {want}")
    if o.meta:
        for nm in ("data_array", "wgt_array", "integration_array", "nsample_array", "stats_array", "cov_array_real",
                   "window_function_array"):
            if hasattr(u, nm):
                add("metadata-only", f"{nm} present in a metadata-only object")
        return bad
    opt = [("cov_array_real", o.cov), ("cov_array_imag", o.cov), ("window_function_array", bool(o.win))]
    for nm, want in opt:
        if want != hasattr(u, nm):
            add("optional", f"{nm} {'missing' if want else 'unexpected'}")
            return bad
    if bool(getattr(u, "exact_windows", False)) != (o.win == "exact"):
        add("optional", f"exact_windows {u.exact_windows}, expected {o.win == 'exact'}")
    if o.win == "exact":
        for nm in ("window_function_kperp", "window_function_kpara"):
            if not hasattr(u, nm):
                add("optional", f"{nm} missing")
                return bad
    st = set(getattr(u, "stats_array", {}).keys())
    if st != set(o.stats):
        add("optional", f"statistics {sorted(st)}, expected {sorted(o.stats)}")
        return bad
    if o.folded:
        diff_folded(u, o, sp, rows, pols, add)
        return bad
    for nm, a in (("data_array", "data"), ("wgt_array", "wgt"), ("integration_array", "integ"),
                  ("nsample_array", "nsamp"), ("cov_array_real", "covr"), ("cov_array_imag", "covi"),
                  ("window_function_array", "win")) + tuple(("stats_array", x) for x in o.stats):
        if not hasattr(u, nm):
            continue
        dct = u.stats_array[a] if nm == "stats_array" else getattr(u, nm)
        if sorted(int(x) for x in dct) != list(range(nspw)):
            add(a, f"{nm} has windows {sorted(dct)}, expected {list(range(nspw))}")
            continue
        for i, s in enumerate(sp):
            arr = np.asarray(dct[i])
            first = xpayload(0, s, 0, 0, 0) if (a == "win" and o.win == "exact") else payload(a, 0, s, 0, 0, 0)
            shp = (nb,) + np.shape(first) + (npol,)
            if arr.shape != shp:
                add(a, f"{nm}[{i}] shape {arr.shape}, expected {shp}")
                continue
            for r, (b, t) in enumerate(rows):
                for q, p in enumerate(pols):
                    k = (o.src(s, b, t, p), s, b, t, p)
                    want = xpayload(*k) if (a == "win" and o.win == "exact") else payload(a, *k)
                    g, ex = arr[r, ..., q], exact_value(k[0])
                    if not (np.array_equal(g, want) if ex else close(g, want)):
                        g = np.ravel(arr[r, ..., q])[0]
                        add(a, f"{nm} at window {s} row {(b, t)} pol {p}: holds "
                            + (f"{decode(g, a)}, expected {decode(np.ravel(want)[0], a)}" if ex else f"{g}, expected {np.ravel(want)[0]}"))
    if o.win == "exact":
        for nm, a in (("window_function_kperp", "kperp"), ("window_function_kpara", "kpara")):
            dct = getattr(u, nm)
            for i, s in enumerate(sp):
                if i not in dct:
                    add("win", f"{nm} lacks window {i}")
                else:
                    cmp("win", dct[i], np.array([wfgrid(a, s, p) for p in pols]).T, f"{nm} window {s}")
    return bad


def close(a, b):
    """computed values agree up to rounding; both may be undefined"""
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-7, atol=1e-7 * float(np.max(np.abs(b), initial=0, where=np.isfinite(b))),
                                                      equal_nan=True)


def folded(arr, key, exact=False):
    """the array of one cell of a folded object"""
    v = key[0] if not isinstance(key[0], int) else ("src", key[0])
    return value("xwin" if exact else arr, v, *key[1:], True)


def diff_folded(u, o, sp, rows, pols, add):
    """compare a folded object through its access functions"""
    for i, s in enumerate(sp):
        nd = SPW[s][2]
        want = dlys(s)[nd // 2 + 1:]
        got = np.asarray(u.get_dlys(i))
        if got.shape != want.shape or not np.allclose(got, want):
            add("axis-delays", f"folded delays of window {s}: {got}, expected {want}")
            continue
        for b in sorted(set(b for b, t in rows)):
            ts = [t for bb, t in rows if bb == b]
            for p in pols:
                key = (i, blp_int(b), POLI[p])
                gets = [("data", u.get_data), ("wgt", u.get_wgts), ("integ", u.get_integrations),
                        ("nsamp", u.get_nsamples)]
                if o.cov:
                    gets += [("covr", lambda k: u.get_cov(k)), ("covi", lambda k: u.get_cov(k, component="imag"))]
                if o.win:
                    gets.append(("win", u.get_window_function))
                if "noise_1_of_2" in o.stats:
                    gets.append(("noise_1_of_2", lambda k: u.get_stats("noise_1_of_2", k)))
                for a, f in gets:
                    try:
                        got = np.asarray(f(key))
                    except Exception as exc:
                        add(a, f"folded {a} of window {s} pair {b} pol {p}: {type(exc).__name__}: {exc}")
                        continue
                    want = np.array([folded(a, (o.src(s, b, t, p), s, b, t, p), a == "win" and o.win == "exact") for t in ts])
                    if got.shape != want.shape:
                        add(a, f"folded {a} of window {s}: shape {got.shape}, expected {want.shape}")
                    elif not all(close(g, w) for g, w in zip(got, want)):
                        add(a, f"folded {a} of window {s} pair {b} pol {p}: {got.ravel()[:3]}, expected {want.ravel()[:3]}")


def decode(v, arr):
    """the cell whose first value this is"""
    for k in itertools.product(range(8), SPW, BLP, TP, POL):
        if np.ravel(leaf(arr, *k))[0] == v:
            return "<%s of source %s window %s row %s pol %s>" % (arr, k[0], k[1], k[2:4], k[4])
    return str(v)


# ------------------------------------------------------------------ complete attribute-wise comparison
def attrs(u):
    return {k: v for k, v in vars(u).items() if not k.startswith("_") and k != "set_symmetric_taper"}


def same(a, b):
    """Exact deep equality of attribute values (numpy aware, nan equal to itself)."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "SUO" or b.dtype.kind in "SUO":
            return [_s(x) for x in a.ravel()] == [_s(x) for x in b.ravel()]
        return bool(np.array_equal(a, b, equal_nan=True))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, "get_params") and hasattr(b, "get_params"):
        return a.get_params() == b.get_params()
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


def _s(x):
    return x.decode() if isinstance(x, bytes) else str(x)


def delta(a, b, ignore=()):
    """Names of attributes in which two real objects differ."""
    A, B = attrs(a), attrs(b)
    out = []
    for k in sorted(set(A) | set(B)):
        if k in ignore:
            continue
        if k not in A or k not in B:
            out.append(k + (" (missing left)" if k not in A else " (missing right)"))
        elif not same(A[k], B[k]):
            out.append(k)
    return out
