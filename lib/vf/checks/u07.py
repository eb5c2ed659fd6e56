"""U07: any chain of operations.  Behaviours of Chain.tla (a superset of Spectra.tla in which cells carry the term that
says how their value was computed) replayed on real objects; after every operation the declared object is compared
cell by cell, checked for self-consistency, and every other object is compared with its last snapshot."""
import contextlib
import copy
import io

import numpy as np

from .. import core, spectra

COPS = (["couple"] * 4 + ["make", "tile", "combinetile", "select", "copy", "copy", "write", "write", "read", "read",
         "combine", "fold", "fold", "eq", "eq", "sub", "sub", "sub", "common", "common", "common", "dsq", "dsq", "cosmo",
         "cosmo", "bias", "bias", "acov", "acov", "gavg", "gavg"])
STYLES = ('{{},{"cov","err"},{"win","beam","noise_1_of_2","rpar"},{"exact","err","noise_1_of_2","beam"},{"noise_1_of_2","beam"},'
          '{"cov","win","err","noise_1_of_2","beam"},{"noise_1_of_2","rpar","cov"}}')
FLAGS = ("spws", "blpairs", "times", "lsts", "polpairs")


def behaviours(chk, num, depth, timeout=500):
    consts = dict(Spws="0..4", Blps="0..7", Tps="0..6", Pols="0..3", NReg="4", NFile="3", Ops="<<\"make\">>",
                  COps="<<" + ",".join(f'"{o}"' for o in COPS) + ">>", Styles=STYLES)
    return core.simulate_traces(chk, "Chain", consts, num, depth, 4, "Chain", timeout)


class Replay(spectra.Replay):
    def __init__(self, seed):
        super().__init__(seed)
        from hera_pspec import grouping, loss, uvpspec_utils
        self.loss, self.G, self.X = loss, grouping, uvpspec_utils

    def construct(self, o):
        """the times of every pair in one order (averaging matches spectra by position)"""
        o.polarr = sorted(o.pols)
        self.rng.shuffle(o.polarr)
        blps = sorted(set(b for b, t in o.rows))
        self.rng.shuffle(blps)
        o.rowlist = sorted(o.rows, key=lambda r: (blps.index(r[0]), r[1]))
        if self.rng.random() < 0.5:
            o.rowlist.sort(key=lambda r: (r[1], blps.index(r[0])))
        return self.uvp.build(o, history=f"made {self.rng.random()};")

    def step(self, act):
        if not super().step(act):
            return False
        for s in act["sets"]:
            u = self.reg[s["reg"]]
            if not s["obj"]["meta"]:
                try:
                    ok = u.check()
                except Exception as exc:
                    return self.fail("self-check", f"object {s['reg']} fails its own check: {type(exc).__name__}: {exc}")
                d = self.uvp.delta(self.snap[s["reg"]], u)
                if d:
                    return self.fail("self-check", f"checking object {s['reg']} changed it in {d}")
                self.count("self checks")
        return True

    def fresh(self, a, r, out):
        """a documented-as-new result: the input keeps its value and shares no memory with the result"""
        u = self.reg[r]
        d = self.uvp.delta(self.snap[r], u)
        if d:
            raise RuntimeError(f"input changed in {d}")
        return out

    def do_couple(self, a, act):
        return self.do_make(a, act)

    def do_dsq(self, a, act):
        u = self.reg[a["reg"]]
        if a["inplace"]:
            u.convert_to_deltasq(inplace=True)
            return {a["reg"]: u}
        return {a["to"]: self.fresh(a, a["reg"], u.convert_to_deltasq(inplace=False))}

    def do_cosmo(self, a, act):
        u = self.reg[a["reg"]]
        c = copy.deepcopy(self.uvp.COSMO[a["id"]])
        u.set_cosmology(c.get_params() if self.rng.random() < 0.4 else c, overwrite=a["ow"], verbose=False)
        return {a["reg"]: u}

    def do_bias(self, a, act):
        u = self.reg[a["reg"]]
        kt, kd = ({i: 2.0**k for i, k in enumerate(a[n])} for n in ("kt", "kd"))
        t0, d0 = dict(kt), dict(kd)
        kw = {}
        if any(a["kt"]) or self.rng.random() < 0.5:
            kw["total_bias"] = kt
        if any(a["kd"]) or self.rng.random() < 0.5:
            kw["data_bias"] = kd
        out = self.loss.apply_bias_correction(u, inplace=a["inplace"], **kw)
        if kt != t0 or kd != d0:
            raise RuntimeError("bias dictionaries changed")
        return {a["to"]: out if a["inplace"] else self.fresh(a, a["reg"], out)}

    def do_acov(self, a, act):
        u = self.reg[a["reg"]]
        out = u.add_approximate_covariance("noise_1_of_2", inplace=a["inplace"], taper="blackmanharris")
        return {a["to"]: out if a["inplace"] else self.fresh(a, a["reg"], out)}

    def do_gavg(self, a, act):
        u, U = self.reg[a["reg"]], self.uvp
        g = [[U.BLP[b] if self.rng.random() < 0.5 else U.blp_int(b) for b in a["group"]]]
        if len({type(x) for x in g[0]}) > 1:
            g = [[U.blp_int(b) for b in a["group"]]]
        g0 = copy.deepcopy(g)
        out = u.average_spectra(blpair_groups=g, inplace=a["inplace"])
        if g != g0:
            raise RuntimeError("group list changed")
        return {a["to"]: u if a["inplace"] else self.fresh(a, a["reg"], out)}

    def do_common(self, a, act):
        objs = [self.reg[r] for r in a["regs"]]
        kw = {f: f in a["flags"] for f in FLAGS}
        out = self.X.select_common(list(objs), inplace=a["inplace"], verbose=False, **kw)
        if a["inplace"]:
            return dict(zip(a["regs"], objs))
        if len(out) != len(objs):
            raise LookupError(f"{len(out)} objects returned for {len(objs)}")
        for r in a["regs"]:
            self.fresh(a, r, None)
        return dict(zip(a["regs"], out))

    def do_sub(self, a, act):
        x, y = self.reg[a["a"]], self.reg[a["b"]]
        with np.errstate(all="ignore"):
            out = self.X.subtract_uvp(x, y, verbose=False)
        for r in (a["a"], a["b"]):
            self.fresh(a, r, None)
        return {a["to"]: out}

    def do_tile(self, a, act):
        return self.do_make(a, act)

    def do_eq(self, a, act):
        super().do_eq(a, act)
        if self.eqmsg and "hold different cells" in self.eqmsg:
            # terms may differ where the numbers agree: only a difference the objects show counts
            d = self.uvp.delta(self.reg[a["a"]], self.reg[a["b"]], ignore=("history", "labels"))
            if not d or not self.substantial(self.reg[a["a"]], self.reg[a["b"]], d):
                self.eqmsg = None

        for r in (a["a"], a["b"]):
            self.eqmsg = self.eqmsg or self.twins(self.reg[r])

    def twins(self, x):
        """a copy of an object equals it, and no longer does once a single element of a single array differs"""
        y = copy.deepcopy(x)
        if not x == y or not y == x:
            return "an object and its copy compare unequal"
        slots = []
        for n in ("data_array", "wgt_array", "integration_array", "nsample_array", "cov_array_real", "cov_array_imag",
                  "window_function_array", "window_function_kperp", "window_function_kpara"):
            slots += [(n, getattr(y, n)[i]) for i in getattr(y, n, {})]
        slots += [("stats_array", st[i]) for st in getattr(y, "stats_array", {}).values() for i in st]
        slots += [(n, getattr(y, n)) for n in ("time_1_array", "time_2_array", "time_avg_array", "lst_1_array", "lst_2_array",
                                               "lst_avg_array", "freq_array", "dly_array", "blpair_array", "polpair_array",
                                               "scalar_array", "bl_vecs", "label_1_array", "label_2_array", "OmegaP",
                                               "OmegaPP", "beam_freqs") if hasattr(y, n)]
        by = {}
        for n, arr in slots:
            by.setdefault(n, []).append(arr)
        for n in self.rng.sample(sorted(by), min(4, len(by))):
            arr = self.rng.choice(by[n])
            flat = [int(i) for i in np.flatnonzero(np.isfinite(arr) & (arr != 0))] if arr.dtype.kind in "fc" else list(range(arr.size))
            if not flat:
                continue
            k = np.unravel_index(self.rng.choice(flat), arr.shape)
            old = arr[k]
            arr[k] = old + 1 if arr.dtype.kind in "iu" else old + 2e-5 if n.startswith("time") else old * 1.01
            same = x == y or y == x
            arr[k] = old
            if same:
                return f"objects that differ in one element of {n} compare equal"
        self.count("perturbed twins compared")
        return None

    def substantial(self, x, y, names):
        """does one of the named arrays differ by more than rounding"""
        def far(p, q):
            if isinstance(p, dict) and isinstance(q, dict):
                return set(p) != set(q) or any(far(p[k], q[k]) for k in p)
            p, q = np.asarray(p), np.asarray(q)
            if p.shape != q.shape:
                return True
            if p.dtype.kind not in "fciu":
                return False
            return not np.allclose(p, q, rtol=1e-3, atol=0, equal_nan=True)
        return any(hasattr(x, n) and hasattr(y, n) and far(getattr(x, n), getattr(y, n))
                   for n in ("data_array", "wgt_array", "integration_array", "nsample_array", "stats_array", "cov_array_real",
                             "scalar_array", "blpair_array", "time_1_array", "time_2_array", "polpair_array", "freq_array"))

    def run(self, trace):
        return super().run([t for t in trace if not (t["op"] == "common" and t["args"].get("skip"))])


def work(item):
    import warnings
    warnings.simplefilter("ignore")
    seed, traces = item
    r = Replay(seed)
    with contextlib.redirect_stdout(io.StringIO()):
        for t in traces:
            r.run(t)
            if len(r.viol) >= 5:
                break
    return dict(violations=r.viol, counts=r.counts,
                samples=[[dict(op=x["op"], args=x["args"], ok=x["ok"]) for x in traces[0][:8]]])


def run(chk):
    import hera_pspec  # noqa: F401
    traces = behaviours(chk, 4000 if chk.thorough else 480, 16)
    items = [(chk.seed * 100 + i, c) for i, c in enumerate(core.chunks(traces, 32))]
    for res in core.pmap(work, items, 8):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
