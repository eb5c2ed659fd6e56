"""Synthetic visibility data (UVData objects) with a chosen layout, flags and payload."""
import copy
import warnings

import numpy as np

from astropy.utils import iers

warnings.filterwarnings("ignore")

# the bundled table, read once: there is no network to fetch another from, and each attempt reads it again
iers.earth_orientation_table.set(iers.IERS_B.open())

DT = 10.7  # seconds between integrations
SID = 1.00273790935  # sidereal rate
POLN = {"xx": -5, "yy": -6, "xy": -7, "yx": -8}
_TEL = {}


def antpos():
    """antennas 0..3 in a row 14.6 m apart, 4..7 in a second row, 8 off the grid"""
    p = {i: np.array([14.6 * (i % 4), 10.0 * (i // 4), 0.0]) for i in range(8)}
    p[8] = np.array([7.3, 31.0, 0.0])
    return p


def telescope(pos=None):
    from astropy.coordinates import EarthLocation
    from pyuvdata.telescopes import Telescope

    key = None if pos is None else repr(sorted((k, tuple(v)) for k, v in pos.items()))
    if key not in _TEL:
        loc = EarthLocation.from_geodetic(lon=21.428, lat=-30.7215, height=1051)
        _TEL[key] = Telescope.new(name="HERA", location=loc, antenna_positions=pos or antpos(), instrument="HERA",
                                  x_orientation="east", feeds=["x", "y"], mount_type="fixed")
    return copy.deepcopy(_TEL[key])


_TPL = {}


def _template(bls, pols, ntimes, nfreq, t0, autos, dt, key, freq0, df, order, pos, at):
    from pyuvdata import UVData

    k = (bls, pols, ntimes, nfreq, t0, autos, dt, key, freq0, df, order, at)
    if k not in _TPL:
        times = 2458116.2 + (t0 + (np.arange(ntimes) if at is None else np.array(at))) * dt / 86400.0 / SID
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _TPL[k] = UVData.new(freq_array=freq0 + df * np.arange(nfreq), polarization_array=[POLN[p] for p in pols],
                                 times=times, antpairs=list(bls) + [(a, a) for a in autos], telescope=telescope(pos),
                                 integration_time=dt, do_blt_outer=True, empty=True, vis_units="Jy",
                                 update_telescope_from_known=False, time_axis_faster_than_bls=order == "bl")
    return _TPL[k]


def build(bls, pols, ntimes, nfreq=12, t0=0.0, seed=0, autos=(), dt=DT, pos=None, flags=None, nsamples=True, vis_units="Jy",
          freq0=120e6, df=1e5, binary=False, order=None, at=None):
    """A UVData object.

    bls: antenna pairs in storage order; t0: start in integrations after the reference time;
    at: times in integrations, instead of 0..ntimes-1
    flags: function(bl, pol, t, nfreq) -> bool array, or None; binary: payload 0/1 reals (for weights)."""
    uvd = copy.deepcopy(_template(tuple(map(tuple, bls)), tuple(pols), ntimes, nfreq, float(t0), tuple(autos), dt,
                                  repr(pos), freq0, df, order, pos, None if at is None else tuple(at)))
    uvd.vis_units = vis_units
    rng = np.random.default_rng(seed)
    sh = uvd.data_array.shape
    if binary:
        uvd.data_array[:] = (rng.random(sh) < 0.85).astype(float)
        for bl in uvd.get_antpairs():  # channels without weight, different for every baseline and polarization
            inds = uvd.antpair2ind(bl, ordered=False)
            for j in range(sh[2]):
                w = uvd.data_array[inds, :, j]
                uvd.data_array[inds, :, j] = w * (rng.random(sh[1]) < 0.8)
    else:
        uvd.data_array[:] = rng.normal(size=sh) + 1j * rng.normal(size=sh)
    a = uvd.ant_1_array == uvd.ant_2_array
    if a.any():
        uvd.data_array[a] = 20 + 5 * rng.random((a.sum(),) + sh[1:])
    uvd.flag_array[:] = False
    uvd.nsample_array[:] = rng.integers(1, 4, size=sh) if nsamples else 1.0
    if flags is not None:
        ut = list(np.unique(uvd.time_array))
        for i in range(uvd.Nblts):
            bl = (int(uvd.ant_1_array[i]), int(uvd.ant_2_array[i]))
            t = ut.index(uvd.time_array[i])
            for j, p in enumerate(uvd.polarization_array):
                pn = [k for k in POLN if POLN[k] == p][0]
                uvd.flag_array[i, :, j] = flags(bl, pn, t, nfreq)
    return uvd


_BEAM = {}


def beam(name="gauss"):
    """a beam model; "response" also has a (made-up) response per polarization and direction"""
    import hera_pspec as hp

    if name not in _BEAM:
        cls = hp.pspecbeam.PSpecBeamGauss

        class Coarse(cls):
            """the normalization integral on a coarser grid: results are compared with each other only"""

            def compute_pspec_scalar(self, lower_freq, upper_freq, num_freqs, num_steps=200, **kw):
                return super().compute_pspec_scalar(lower_freq, upper_freq, num_freqs, num_steps=min(num_steps, 200), **kw)

        class Response(Coarse):
            def beam_normalized_response(self, pol="pI", freq=None, x_orientation=None):
                n = 12
                k = {"xx": 1, "yy": 2, -5: 1, -6: 2}.get(pol, 3)
                x = np.linspace(0, 1, n)
                res = np.array([np.exp(-((x / (0.4 + 0.1 * k + 1e-9 * f / 120e6)) ** 2)) for f in freq])
                return res, res.mean(axis=1), 4

        _BEAM[name] = (Response if name == "response" else Coarse)(0.8, np.linspace(115e6, 130e6, 16))
    return _BEAM[name]


def state(uvd):
    """everything in a data object that an estimation may not touch"""
    return (uvd.data_array.tobytes(), uvd.flag_array.tobytes(), uvd.nsample_array.tobytes(), uvd.time_array.tobytes(),
            uvd.lst_array.tobytes(), uvd.ant_1_array.tobytes(), uvd.ant_2_array.tobytes(), uvd.freq_array.tobytes(),
            uvd.polarization_array.tobytes(), uvd.integration_time.tobytes(), str(uvd.vis_units))
