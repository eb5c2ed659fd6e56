"""D04: trimming keeps exactly the integrations whose LST all data sets hold.

Trim.tla says which positions of which data set are kept; its consequences (same length, aligned, nothing shared lost,
trimming again changes nothing) are invariants.  Behaviours are replayed on PSpecData objects made of data sets at these
LSTs (on different days, across the LST wrap, with offsets below and above the tolerance), and every sample of data,
weights and standard deviations is compared."""
import contextlib
import io
import warnings

import numpy as np

from .. import core

BL = [(0, 1), (1, 2)]
GRID, NF = 40, 6
JD0 = 2458116.2


class Replay:
    def __init__(self, seed):
        import hera_pspec as hp
        from .. import uvd
        self.V, self.hp, self.seed = uvd, hp, seed
        self.viol, self.counts = [], {}

    def bad(self, clause, text, done):
        self.viol.append(dict(clause=clause, detail=text[:1500], replay=[str(a) for a in done], key=clause))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ------------------------------------------------------------------ data
    def when(self, lsts, day, tol, stretch):
        """times at which the given LSTs occur; grid point GRID is the wrap"""
        from pyuvdata.utils import get_lst_for_time
        rate = 2 * np.pi / 86400.0
        # seconds of LST before or after the wrap
        sec = []
        for x in lsts:
            g = (x + 500) // 1000
            off = x - 1000 * g
            g = g if g > GRID // 2 else g + GRID
            sec.append((g - GRID) * self.V.DT * stretch + off * 10.0**-(tol + 1) / rate)
        target = np.array(sec) * rate
        if not self.wrap:
            target = target + 1.0  # anywhere else on the circle
        loc = self.V.telescope().location
        jd = JD0 + day + np.zeros(len(target))
        for _ in range(4):
            lst = get_lst_for_time(jd, telescope_loc=loc)
            d = (target - lst + np.pi) % (2 * np.pi) - np.pi
            jd = jd + d / rate / 86400.0 / self.V.SID
        return (jd - JD0) * 86400 * self.V.SID / self.V.DT

    def make(self, a):
        seed = self.seed
        self.tol = [6, 6, 5][seed % 3]
        self.wrap = seed % 2 == 0
        # lsts of the behaviour straddle the wrap or not: place its grid on the circle so that they do
        self.sets, d, w, s = [], [], [], []
        units = ["Jy", "uncalib", "mK"][seed // 3 % 3]
        for i, x in enumerate(a["sets"]):
            at = self.when(x["lsts"], x["day"], self.tol, 1.5 if a["other"] == i + 1 else 1.0)
            order = np.argsort(at)  # storage is in order of time
            kw = dict(bls=BL, pols=["xx", "yy"], ntimes=len(at), nfreq=NF, at=at[order], order=[None, "bl"][seed // 5 % 2],
                      vis_units=units)
            u = self.V.build(seed=seed * 7 + i, flags=None, **kw)
            u.flag_array[:] = np.random.default_rng(seed + i).random(u.flag_array.shape) < 0.3
            v = self.V.build(seed=seed * 7 + i + 100, binary=True, **kw) if x["wgts"] else None
            y = self.V.build(seed=seed * 7 + i + 200, **kw) if x["std"] else None
            if i == 0 and seed % 4 == 0:  # a baseline without its second integration
                t = np.unique(u.time_array)[1]
                for z in (u, v, y):
                    if z is not None:
                        z.select(blt_inds=np.where((z.time_array != t) | (z.ant_1_array == 0))[0], run_check=False)
            d.append(u), w.append(v), s.append(y)
        if seed % 6 == 1:  # the same data once more
            d.append(d[0]), w.append(w[0]), s.append(s[0])
            self.count("same data twice")
        self.ds = self.hp.PSpecData(dsets=d, wgts=w, dsets_std=s)
        self.parts = list(zip(self.ds.dsets, self.ds.wgts, self.ds.dsets_std))  # deviations may be copied
        self.asked = [self.hp.PSpecData.x(self.ds, (i, BL[0], "xx")) for i in range(len(a["sets"]))]  # a cache to be out of date

    @staticmethod
    def content(u):
        """{(antenna pair, time)} -> everything stored for it"""
        if u is None:
            return None
        return {(int(u.ant_1_array[n]), int(u.ant_2_array[n]), float(u.time_array[n])):
                (u.data_array[n].tobytes(), u.flag_array[n].tobytes(), u.nsample_array[n].tobytes(), float(u.lst_array[n]),
                 float(u.integration_time[n]), u.uvw_array[n].tobytes()) for n in range(u.Nblts)}

    def call(self):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.ds.trim_dset_lsts(**({} if self.tol == 6 else {"lst_tol": self.tol}))

    def step(self, a, done):
        if a["op"] == "make":
            self.make(a)
            return True
        before = [tuple(self.content(u) for u in p) for p in self.parts]
        self.count(a["op"])
        if a["op"] == "refuse":
            try:
                self.call()
            except ValueError:
                pass
            else:
                self.bad("refusal", f"data sets on different LST grids are accepted: {done[0]}", done)
            if before != [tuple(self.content(u) for u in p) for p in self.parts]:
                self.bad("refusal", "a refused trim changed the data", done)
            return False
        if a["op"] == "nothing":
            return False
        self.call()
        n = len(a["keep"])
        for i, p in enumerate(self.parts):
            k = i if i < n else 0
            lsts = a["before"][k]["lsts"]
            times = np.unique([x[2] for x in before[i][0]])
            if len(times) != len(lsts):
                raise core.MachineryError("times lost in building")
            # time order is order of grid points, which is order of positions
            keep = {times[m - 1] for m in a["keep"][k]}
            for u, b, what in zip(p, before[i], ("data", "weights", "deviations")):
                if u is None:
                    continue
                got, want = self.content(u), {x: y for x, y in b.items() if x[2] in keep}
                self.count("objects compared")
                self.count("integrations dropped", len(b) - len(want))
                if got != want:
                    extra, lost = {x[2] for x in got} - keep, keep - {x[2] for x in got}
                    self.bad("kept", f"{what} of data set {i}: kept times {sorted(extra)} not shared, lost {sorted(lost)} shared"
                             if extra or lost else f"{what} of data set {i}: samples changed or moved", done)
                    return False
        if len({u.Ntimes for u, _, _ in self.parts}) != 1 or self.ds.Ntimes != self.parts[0][0].Ntimes:
            self.bad("length", f"numbers of integrations {[u.Ntimes for u, _, _ in self.parts]}, {self.ds.Ntimes}", done)
            return False
        for i in range(n):
            u, w, s = self.parts[i]
            x = self.ds.x((i, BL[0], "xx"))
            if not np.array_equal(x, u.get_data(BL[0] + ("xx",)).T) or self.ds.w((i, BL[0], "xx")).shape != x.shape:
                self.bad("aligned", f"data or weights of data set {i} answered after trimming are not those kept", done)
                return False
        return True

    def run(self, traces):
        for tr in traces:
            self.seed += 1
            done = []
            for a in tr:
                done.append(a)
                if not self.step(a, done):
                    break
            if len(self.viol) > 10:
                break
        return dict(violations=self.viol, counts=self.counts, samples=[[a["op"] for a in tr] for tr in traces[:1]])


def work(item):
    seed, traces = item
    with contextlib.redirect_stdout(io.StringIO()):
        return Replay(seed).run(traces)


def run(chk):
    import hera_pspec  # noqa: F401
    const = dict(Grid=str(GRID), MaxSets="4", Lens="5..8")
    small = dict(const, Random="FALSE", MaxStep="3", Emit="FALSE", MaxSets="2", Lens="{5}", Grid="9")
    if chk.thorough:
        r = core.run_tlc("Trim", "Trim.cfg", small, workers=8, timeout=3000, heap="8g")
        chk.add_tlc(r, "Trim-all-pairs")
    traces = core.simulate_traces(chk, "Trim", const, 4000 if chk.thorough else 400, 3)
    items = [(chk.seed * 1000 + 41 * i, c) for i, c in enumerate(core.chunks(traces, 32))]
    for res in core.pmap(work, items):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
