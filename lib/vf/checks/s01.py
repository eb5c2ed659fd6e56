"""S01: pseudo-Stokes visibilities.

Behaviours of Stokes.tla (data sets, combinations of two of them, choices among them) are replayed on real data sets whose
samples are the specification's integers; results are compared exactly, refusals must be refusals, inputs stay as they are."""
import contextlib
import copy
import io
import os
import random
import shutil
import tempfile
import warnings

import numpy as np

from .. import core

NAME = {1: "pI", 2: "pQ", 3: "pU", 4: "pV"}


class Bad(Exception):
    pass


class Replay:
    def __init__(self, seed):
        from hera_pspec import pstokes
        from .. import uvd
        self.S, self.D, self.seed = pstokes, uvd, seed
        self.viol, self.counts = [], {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def make(self, a):
        D, rng = self.D, self.rng
        self.sets = []
        order = rng.choice(["bl", None])
        for o, sm in zip(a["sets"], a["samples"]):
            bls = [[(1, 2), (2, 3)], [(3, 4), (1, 2)], [(1, 2), (2, 4)]][o["bls"]]
            d = D.build(bls, ["xx", "yy", "xy", "yx"][:len(o["pols"])], 2, nfreq=3, t0=0.37 * o["times"], order=order,
                        freq0=120e6 + (1e5 if o["freqs"] else 0))
            d.polarization_array = np.array(o["pols"])
            d.pol_convention = None if o["conv"] == "none" else o["conv"]
            d.spw_array = np.array([3 * o["spw"]])
            d.flex_spw_id_array = np.full(3, 3 * o["spw"])
            d.data_array = d.data_array.astype(np.complex128)
            for q, col in enumerate(sm):
                for c, x in enumerate(col):
                    r, f = divmod(c, 3)
                    d.data_array[r, f, q] = (x["re"] + 1j * x["im"]) / 2
                    d.flag_array[r, f, q] = x["flag"]
                    d.nsample_array[r, f, q] = x["num"] / x["den"]
            d.check()
            self.sets.append(d)

    def construct(self, a):
        d, e = self.sets[a["i"] - 1], self.sets[a["j"] - 1]
        kept = [copy.deepcopy(x) for x in (d, e)]
        st = NAME[a["st"]] if a["str"] else a["st"]
        self.count("refusals" if a["refused"] else "combinations")
        args, tmp = [d, e], None
        if a["files"] and all(set(x.polarization_array) <= {-5, -6, -7, -8} for x in (d, e)) and not np.any(d.spw_array) and not a["refused"]:
            tmp = tempfile.mkdtemp()
            for k in range(2):
                f = os.path.join(tmp, str(k))
                copy.deepcopy(args[k]).write_miriad(f)
                args[k] = f
            self.count("from files")
        try:
            try:
                out = self.S.construct_pstokes(args[0], args[1], pstokes=st, history="more")
            finally:
                if tmp:
                    shutil.rmtree(tmp)
        except Exception as exc:
            out = exc
        for x, k in zip((d, e), kept):
            if x != k or x.pol_convention != k.pol_convention or x.history != k.history:
                raise Bad("the input was changed")
        if a["refused"]:
            if not isinstance(out, Exception):
                raise Bad("data sets that do not fit together were combined")
            return
        if isinstance(out, Exception):
            raise out
        if out is d or out is e or np.shares_memory(out.data_array, d.data_array):
            raise Bad("the result is the input")
        out.check()
        if list(out.polarization_array) != [a["st"]] or out.Npols != 1:
            raise Bad(f"polarizations {out.polarization_array}, specified {a['st']}")
        if out.pol_convention != a["conv"]:
            raise Bad(f"convention {out.pol_convention}, specified {a['conv']}")
        if tmp:
            if sorted(zip(out.ant_1_array, out.ant_2_array, np.round(out.time_array, 6))) != sorted(zip(d.ant_1_array, d.ant_2_array, np.round(d.time_array, 6))):
                raise Bad("baselines and times of the result")
            at = {(i, j, round(t, 6)): r for r, (i, j, t) in enumerate(zip(d.ant_1_array, d.ant_2_array, d.time_array))}
            rows = [at[i, j, round(t, 6)] for i, j, t in zip(out.ant_1_array, out.ant_2_array, out.time_array)]
        else:
            for n in ("ant_1_array", "ant_2_array", "time_array", "freq_array", "lst_array"):
                if not np.array_equal(getattr(out, n), getattr(d, n)):
                    raise Bad(f"{n} of the result differ")
            rows = list(range(4))
        for k, r in enumerate(rows):
            for f in range(3):
                x = a["samples"][3 * r + f]
                w = (x["re"] + 1j * x["im"]) / 4
                g = out.data_array[k, f, 0]
                if abs(g - w) > 1e-5:
                    raise Bad(f"{NAME[a['st']]} at ({r}, {f}) is {g}, specified {w}")
                if bool(out.flag_array[k, f, 0]) != x["flag"] and not tmp:
                    raise Bad(f"flag of {NAME[a['st']]} at ({r}, {f}) is {out.flag_array[k, f, 0]}, specified {x['flag']}")
                if abs(out.nsample_array[k, f, 0] - x["num"] / x["den"]) > 1e-5 and not tmp:  # (miriad files do not hold them)
                    raise Bad(f"samples of {NAME[a['st']]} at ({r}, {f}): {out.nsample_array[k, f, 0]}, specified {x['num']}/{x['den']}")

    def filter(self, a):
        ds = [self.sets[k - 1] for k in a["order"]]
        kept = [copy.deepcopy(x) for x in ds]
        try:
            out = self.S.filter_dset_on_stokes_pol(list(ds), NAME[a["st"]] if a["str"] else a["st"])
        except Exception as exc:
            out = exc
        if any(x != k for x, k in zip(ds, kept)):
            raise Bad("the input was changed")
        if a["refused"]:
            if not isinstance(out, Exception):
                raise Bad(f"chose {len(out)} data sets, which lack a polarization")
            return
        if isinstance(out, Exception):
            raise out
        want = [self.sets[k - 1] for k in a["chosen"]]
        if len(out) != 2 or any(x is not y for x, y in zip(out, want)):
            raise Bad(f"chose data sets {[[k + 1 for k, s in enumerate(self.sets) if s is x] for x in out]}, specified {a['chosen']}")

    def run(self, traces):
        for tr in traces:
            self.seed += 1
            self.rng = random.Random(self.seed)
            done = []
            for a in tr:
                done.append(a)
                self.count(a["op"])
                try:
                    getattr(self, a["op"])(a)
                except Bad as exc:
                    self.fail(a, str(exc), done)
                    break
                except Exception as exc:
                    import traceback
                    self.fail(a, "".join(traceback.format_exception(exc))[-1500:], done)
                    break
            if len(self.viol) > 10:
                break
        return dict(violations=self.viol, counts=self.counts, samples=[[a["op"] for a in tr] for tr in traces[:1]])

    def fail(self, a, text, done):
        self.viol.append(dict(clause=a["op"], detail=text, key=a["op"], replay=done))


def work(item):
    seed, traces = item
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Replay(seed).run(traces)


def run(chk):
    import hera_pspec  # noqa: F401
    traces = core.simulate_traces(chk, "Stokes", {}, 6000 if chk.thorough else 600, 9)
    items = [(chk.seed * 1000 + 41 * i, t) for i, t in enumerate(core.chunks(traces, 32))]
    for res in core.pmap(work, items):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
