"""D03: flag broadcasting flags exactly the channels and integrations of the threshold rule.

Broadcast.tla is the rule, with its consequences (flags only added, only inside the windows, separable afterwards) model
checked over every pattern of a small waterfall.  Behaviours over several data sets, baselines and polarizations are
replayed on the real object, and every flag of every data set is compared after each call."""
import contextlib
import copy
import io
import warnings

import numpy as np

from .. import core

NT, NF = 5, 8
BL = [(0, 1), (1, 2)]
POLS = ["xx", "yy"]
PLISTS = [["xx", "yy"], ["yy", "xx"], ["xy", "xx", "yx", "yy"]]  # cross-polarizations stay without flags


class Replay:
    def __init__(self, seed):
        import hera_pspec as hp
        from .. import uvd
        self.V, self.hp, self.seed = uvd, hp, seed
        self.viol, self.counts = [], {}

    def bad(self, clause, text, done):
        self.viol.append(dict(clause=clause, detail=text, replay=[str(a) for a in done], key=clause))

    def place(self, u, k):
        """rows in time order and polarization of waterfall k (1..8)"""
        k -= 1
        bl = BL[k // 2 % 2]
        rows = np.where((u.ant_1_array == bl[0]) & (u.ant_2_array == bl[1]))[0]
        return rows[np.argsort(u.time_array[rows])], list(u.polarization_array).index({"xx": -5, "yy": -6}[POLS[k % 2]])

    def times(self, held, i, b):
        # both polarizations of a baseline hold the same times
        return sorted(held[4 * i + 2 * b])

    def build(self, a, seed):
        held = a["held"]
        out = []
        for i in range(2):
            u = self.V.build(bls=BL, pols=PLISTS[(seed + i) % 3], ntimes=NT, nfreq=NF, t0=i, seed=seed + i,
                             order=[None, "bl"][seed // 2 % 2], autos=(0,))
            ut = list(np.unique(u.time_array))
            keep = []
            for n in range(u.Nblts):
                bl = (int(u.ant_1_array[n]), int(u.ant_2_array[n]))
                keep.append(bl not in BL or ut.index(u.time_array[n]) in self.times(held, i, BL.index(bl)))
            if not all(keep):
                u.select(blt_inds=np.where(keep)[0])
            out.append(u)
        self.ut = [self.V_times(i) for i in range(2)]
        return out

    def V_times(self, i):
        key = ("t", i)
        if key not in _T:
            _T[key] = np.unique(self.V.build(bls=BL, pols=POLS, ntimes=NT, nfreq=NF, t0=i).time_array)
        return _T[key]

    def put(self, a):
        for i, u in enumerate(self.d):
            u.flag_array[:] = False
            for n in range(4):
                k = 4 * i + n + 1
                rows, j = self.place(u, k)
                for t, c in a["after"][k - 1]:
                    if t in self.times(a["held"], i, n // 2):
                        r = rows[np.where(u.time_array[rows] == self.ut[i][t])[0][0]]
                        u.flag_array[r, c, j] = True

    def waterfall(self, u, i, k):
        rows, j = self.place(u, k)
        t = [int(np.where(self.ut[i] == x)[0][0]) for x in u.time_array[rows]]
        return {(t[n], int(c)) for n, c in np.argwhere(u.flag_array[rows, :, j])}

    def step(self, a, done):
        if a["op"] == "flag":
            seed = self.seed + 31 * len(done)
            self.d = self.build(a, seed)
            self.put(a)
            twice = seed % 4 == 0
            self.ds = self.hp.PSpecData(dsets=self.d + ([self.d[0]] if twice else []),
                                        wgts=None if seed % 3 else [copy.deepcopy(x) for x in self.d] + ([None] if twice else []))
            self.ds.set_spw((1, 6))
            self.ds.set_taper("blackman-harris")
            self.counts["same data twice"] = self.counts.get("same data twice", 0) + twice
            return True
        n = len(a["windows"])
        ws = [tuple(w) for w in a["windows"]]
        args = dict(spw_ranges=None if ws == [(0, NF)] and self.seed % 2 else ws)
        if a["op"] == "unflag":
            args["unflag"] = True
        else:
            args["time_thresh"] = a["thresh"][0] / a["thresh"][1]
        before = [(u.data_array.copy(), u.nsample_array.copy(), u.time_array.copy()) for u in self.d]
        autos = [u.flag_array[u.ant_1_array == u.ant_2_array].copy() for u in self.d]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.ds.broadcast_dset_flags(**args)
        self.counts[a["op"] + f" over {n} windows"] = self.counts.get(a["op"] + f" over {n} windows", 0) + 1
        for i, u in enumerate(self.d):
            for m in range(4):
                k = 4 * i + m + 1
                want, got = {tuple(x) for x in a["after"][k - 1]}, self.waterfall(u, i, k)
                was = {tuple(x) for x in a["before"][k - 1]}
                self.counts["waterfalls"] = self.counts.get("waterfalls", 0) + 1
                self.counts["flags added"] = self.counts.get("flags added", 0) + len(want - was)
                if got != want:
                    self.bad("flags" if a["op"] == "broadcast" else "unflag",
                             f"data set {i}, baseline {BL[m // 2]}, {POLS[m % 2]}, {args}: flags {sorted(was)} became {sorted(got)}, "
                             f"specified {sorted(want)}", done)
                    return False
            for x, y, what in zip(before[i], (u.data_array, u.nsample_array, u.time_array), ("visibilities", "sample counts", "times")):
                if not np.array_equal(x, y):
                    self.bad("untouched", f"{args} changed the {what}", done)
                    return False
            if u.flag_array[..., u.polarization_array < -6].any():
                self.bad("flags", f"{args} flagged an unflagged polarization", done)
                return False
            if not autos[i].any() and u.flag_array[u.ant_1_array == u.ant_2_array].any():
                self.bad("flags", f"{args} flagged an unflagged baseline", done)
                return False
        if tuple(self.ds.get_spw()) != (1, 6) or self.ds.taper != "blackman-harris" or len(self.ds.delays()) != 5:
            self.bad("settings", f"{args} changed the settings of the object: {self.ds.get_spw()}", done)
            return False
        # the weights the object hands out are those of the new flags
        for i, u in enumerate(self.d):
            if self.ds.wgts[i] is None:
                rows, j = self.place(u, 4 * i + 2)
                w = self.ds.w((i, BL[0], "yy"))
                if not np.array_equal(w, (~u.flag_array[rows, 1:6, j]).T.astype(float)):
                    self.bad("weights", f"after {args} the weights are not those of the flags", done)
                    return False
        return True

    def run(self, traces):
        for n, tr in enumerate(traces):
            self.seed += 1
            done = []
            for a in tr:
                done.append(a)
                if not self.step(a, done):
                    break
            if len(self.viol) > 10:
                break
        return dict(violations=self.viol, counts=self.counts, samples=[[{k: a[k] for k in a if k in ("op", "windows", "thresh")}
                                                                       for a in tr] for tr in traces[:1]])


_T = {}


def work(item):
    seed, traces = item
    with contextlib.redirect_stdout(io.StringIO()):
        return Replay(seed).run(traces)


def run(chk):
    import hera_pspec  # noqa: F401
    from .. import uvd
    small = dict(Random="FALSE", MaxStep="1", Emit="FALSE", Full="TRUE", NT="3", NF="3", Keys="{1}")
    r = core.run_tlc("Broadcast", "Broadcast.cfg", small, workers=8)
    chk.add_tlc(r, "Broadcast-3x3")
    if chk.thorough:
        for nt, nf in ((4, 3), (3, 4)):
            chk.add_tlc(core.run_tlc("Broadcast", "Broadcast.cfg", dict(small, NT=str(nt), NF=str(nf)), workers=8, timeout=3000,
                                     heap="8g"), f"Broadcast-{nt}x{nf}")
    traces = core.simulate_traces(chk, "Broadcast", dict(Full="FALSE", NT=str(NT), NF=str(NF), Keys="1..8"), 6000 if chk.thorough else 500, 9)
    for order in (None, "bl"):  # shared templates
        for i in (0, 1):
            for pols in PLISTS:
                uvd.build(bls=BL, pols=pols, ntimes=NT, nfreq=NF, t0=i, order=order, autos=(0,))
    items = [(chk.seed * 1000 + 37 * i, c) for i, c in enumerate(core.chunks(traces, 32))]
    for res in core.pmap(work, items):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
