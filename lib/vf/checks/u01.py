"""U01: addressing of cells against specs/Keys.tla and specs/Codes.tla."""
import contextlib
import copy
import io
import random

import numpy as np

from .. import core

POLN = {-8: "yx", -7: "xy", -6: "yy", -5: "xx", -4: "lr", -3: "rl", -2: "ll", -1: "rr", 1: "pI", 2: "pQ", 3: "pU", 4: "pV"}


class Replay:
    def __init__(self, seed):
        from .. import uvp
        self.U = uvp
        self.rng = random.Random(seed)
        self.viol, self.counts = [], {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def run(self, trace):
        self.done = []
        for act in trace:
            self.done.append(act)
            self.count("steps")
            self.count("op:" + act["op"] + ("" if act["ok"] else ":refused"))
            bad = getattr(self, "do_" + act["op"])(act)
            if not bad and act["op"] not in ("make", "setstat", "slice"):
                d = self.U.delta(self.snap, self.u)
                bad = ("modified", f"the object changed in {d}") if d else None
            if bad:
                self.viol.append(dict(clause=bad[0], key=act["op"] + ":" + bad[0],
                                      detail=f"{act['op']} {act['args']}: {bad[1]}", replay=dict(behaviour=self.done)))
                return

    # ------------------------------------------------------------------ forms
    def polform(self, p):
        U = self.U
        a, b = U.POL[p]
        nums = tuple({v: k for k, v in POLN.items()}[x] for x in (a, b))
        forms = [U.POLI[p], np.int32(U.POLI[p]), (a, b), nums, (a, nums[1])]
        if a == b:
            forms.append(a)
        return self.rng.choice(forms)

    def blpform(self, b, conj):
        U = self.U
        (i, j), (k, l) = U.BLP[b]
        t = ((j, i), (k, l)) if conj else ((i, j), (k, l))
        n = ((t[0][0] + 100) * 1000 + t[0][1] + 100) * 10**6 + (t[1][0] + 100) * 1000 + t[1][1] + 100
        return self.rng.choice([t, n, np.int64(n)])

    def key(self, k):
        s = self.rng.choice([int, np.int64, np.uint16])(k["spw"])
        parts = (s, self.blpform(k["blp"], k["conj"]), self.polform(k["pol"]))
        if self.rng.random() < 0.4:
            names = list(zip(("spw", "blpair", "polpair"), parts))
            self.rng.shuffle(names)
            return dict(names)
        return parts

    # ------------------------------------------------------------------ actions
    def do_make(self, act):
        o = act["args"]["obj"]
        U = self.U
        rows = [tuple(r) for r in o["rows"]]
        src = {}
        self.o = U.Obj(o["spws"], set(rows), set(o["pols"]), src=lambda s, b, t, p: src.setdefault((s, b, t, p), (s + b + t + p) % 4),
                       cov=True, win="plain", stats=(), rowlist=rows, polarr=list(o["pols"]), folded=o["folded"])
        self.zero = {(s, tuple(r), p) for s, r, p in o["zero"]}
        self.u = U.build(self.o)
        for s, r, p in self.zero:
            self.u.integration_array[o["spws"].index(s)][rows.index(r), o["pols"].index(p)] = 0.0
        self.rows, self.pols, self.spws = rows, o["pols"], o["spws"]
        self.snap = copy.deepcopy(self.u)
        self.stats = {}

    def do_nop(self, act):
        pass

    def payload(self, a, s, b, t, p):
        k = (self.o.src(s, b, t, p), s, b, t, p)
        if a == "integ" and (s, (b, t), p) in self.zero:
            return 0.0
        return self.U.folded(a, k) if self.o.folded else self.U.payload(a, *k)

    def do_get(self, act):
        k, res, u, U = act["args"], act["res"], self.u, self.U
        kw = dict(omit_flags=True) if k["omit"] else self.rng.choice([{}, dict(omit_flags=False)])
        gets = dict(data=u.get_data, wgt=u.get_wgts, integ=u.get_integrations, nsamp=u.get_nsamples,
                    covr=u.get_cov, covi=lambda x, **w: u.get_cov(x, component="imag", **w), win=u.get_window_function)
        for a, f in gets.items():
            key = self.key(k)
            before = copy.deepcopy(key)
            try:
                got = np.asarray(f(key, **kw))
            except Exception as exc:
                if act["ok"]:
                    return "refused", f"{a} with key {key}: {type(exc).__name__}: {exc}"
                continue
            if key != before:
                return "modified", f"the key {before} became {key}"
            if not act["ok"]:
                return "accepted", f"{a} with the absent key {key} returned an array of shape {got.shape}"
            want = [self.payload(a, res["spw"], b, t, k["pol"]) for b, t in res["rows"]]
            if len(got) != len(want):
                return "cells", f"{a} with key {key} has {len(got)} rows, expected {len(want)}"
            self.count("rows compared", len(want))
            for g, w, r in zip(got, want, res["rows"]):
                ok = np.shape(g) == np.shape(w) and (np.allclose(g, w, rtol=1e-9, atol=0) if self.o.folded else np.array_equal(g, w))
                if not ok:
                    return "cells", f"{a} with key {key}: row of {r} holds {np.ravel(g)[:2]}, expected {np.ravel(w)[:2]}"
        key = self.key(k)
        try:
            s, at, p = u.key_to_indices(key, **kw)
        except Exception as exc:
            return ("refused", f"indices of {key}: {exc}") if act["ok"] else None
        if not act["ok"]:
            return "accepted", f"indices of the absent key {key}: {s, at, p}"
        if int(s) != k["spw"] or [int(x) + 1 for x in at] != list(res["at"]) or int(p) != self.pols.index(k["pol"]):
            return "cells", f"indices of {key}: {s, at, p}"

    def value(self, v, s, b, t, p, cplx, nd):
        x = v * 1000.0 + 100 * t + np.arange(nd)
        return x + (1j * (x + 7) if cplx else 0)

    def do_setstat(self, act):
        a, u = act["args"], self.u
        k, n = a["key"], a["name"]
        before = copy.deepcopy(u)
        key = self.key(k)
        s = self.spws[k["spw"]] if k["spw"] < len(self.spws) else self.spws[0]
        nd = self.U.SPW[s][2]
        rows = act["res"]["rows"] if act["ok"] else [r for r in self.rows if r[0] == k["blp"]] or [self.rows[0]]
        val = np.array([self.value(a["v"], s, b, t, k["pol"], a["cplx"], nd) for b, t in rows])
        if a["bad"]:
            val = self.rng.choice([val[:, :-1], np.concatenate([val, val]), val[0]])
        elif self.o.folded and self.rng.random() < 0.5:  # the shape in which statistics and data are returned
            val = val[:, nd // 2 + 1:].copy()
        arg = copy.deepcopy(val)
        try:
            u.set_stats(n, key, val)
        except Exception as exc:
            if act["ok"]:
                return "refused", f"{type(exc).__name__}: {exc}"
            d = self.U.delta(before, u)
            return ("modified", f"a refused store changed {d}") if d else None
        if not act["ok"]:
            return "accepted", f"key {key} shape {val.shape}"
        if not np.array_equal(arg, val):
            return "modified", "the stored array was changed"
        val[:] = -1  # the object must not depend on the caller's array afterwards
        new = n not in self.stats
        st = self.stats.setdefault(n, {})
        for b, t in rows:
            st[(s, (b, t), k["pol"])] = (self.value(a["v"], s, b, t, k["pol"], a["cplx"], nd))
        d = [x for x in self.U.delta(before, u) if not x.startswith("stats_array")]
        if d:
            return "modified", f"storing a statistic changed {d}"
        self.snap = copy.deepcopy(u)
        if not new and self.U.same([list(before.stats_array)], [list(u.stats_array)]) is False:
            return "modified", "statistic names changed"
        return self.compare_all()

    def compare_all(self):
        """every stored value of every statistic"""
        u = self.u
        if set(getattr(u, "stats_array", {})) != set(self.stats):
            return "statistics", f"statistics {sorted(getattr(u, 'stats_array', {}))}, expected {sorted(self.stats)}"
        for n, st in self.stats.items():
            for i, s in enumerate(self.spws):
                nd = self.U.SPW[s][2]
                for q, p in enumerate(self.pols):
                    for b in sorted({b for b, t in self.rows}):
                        try:
                            got = np.asarray(u.get_stats(n, (i, self.U.BLP[b], self.U.POL[p])))
                        except Exception as exc:
                            return "refused", f"statistic {n}: {type(exc).__name__}: {exc}"
                        want = np.array([st.get((s, r, p), np.full(nd, np.nan)) for r in self.rows if r[0] == b])
                        if self.o.folded:
                            want = want[:, nd // 2 + 1:]
                        if got.shape != want.shape or not np.array_equal(got, want, equal_nan=True):
                            return "statistics", f"{n} of window {s} pair {b} pol {p}: {got.ravel()[:3]}, expected {want.ravel()[:3]}"
                        self.count("statistics compared")

    def do_slice(self, act):
        a, u = act["args"], self.u
        before = copy.deepcopy(u)
        kw = dict(above=a["above"], val=-float(a["v"])) if a["above"] or self.rng.random() < 0.5 else dict(val=-float(a["v"]))
        try:
            u.set_stats_slice(a["name"], a["m"], a["b"], **kw)
        except Exception as exc:
            if act["ok"]:
                return "refused", f"{type(exc).__name__}: {exc}"
            return ("modified", "refused but changed") if self.U.delta(before, u) else None
        if not act["ok"]:
            return "accepted", "a statistic that does not exist"
        d = [x for x in self.U.delta(before, u) if not x.startswith("stats_array")]
        if d:
            return "modified", f"changed {d}"
        st = self.stats[a["name"]]
        L = [1460, 1460, 1450, 2920, 2910]
        for s in self.spws:
            nd = self.U.SPW[s][2]
            for r in self.rows:
                l2 = sum(L[i] for i in (dict(zip(range(8), (0, 0, 1, 3, 1, 4, 0, 2)))[r[0]],
                                        dict(zip(range(8), (0, 1, 2, 4, 0, 3, 3, 2)))[r[0]]))
                x = np.abs(np.arange(nd) - nd // 2) * 10000 * 200 - (a["m"] * l2 + a["b"] * 200) * nd
                m = x > 0 if a["above"] else x < 0
                for p in self.pols:
                    v = np.array(st.get((s, r, p), np.full(nd, np.nan)))
                    v[m] = -float(a["v"])
                    st[(s, r, p)] = v
        self.snap = copy.deepcopy(u)
        return self.compare_all()

    def do_getstat(self, act):
        a, u = act["args"], self.u
        k = a["key"]
        key = self.key(k)
        try:
            got = np.asarray(u.get_stats(a["name"], key, **(dict(omit_flags=True) if k["omit"] else {})))
        except Exception as exc:
            return ("refused", f"{type(exc).__name__}: {exc}") if act["ok"] else None
        if not act["ok"]:
            return "accepted", f"key {key} gave an array of shape {got.shape}"
        res = act["res"]
        nd = self.U.SPW[res["spw"]][2]
        st = self.stats[a["name"]]
        lo = nd // 2 + 1 if self.o.folded else 0
        want = np.array([st.get((res["spw"], tuple(r), k["pol"]), np.full(nd, np.nan))[lo:] for r in res["rows"]])
        # the specification's value: 0 not set, negative replaced by a slice, positive a stored waterfall
        for r, vals, w in zip(res["rows"], res["vals"], want):
            for v, x in zip(vals[lo:], w):
                c = 0 if np.isnan(np.real(x)) else int(np.real(x)) if np.real(x) < 0 else int(np.real(x)) // 1000
                if c != v:
                    raise core.MachineryError(f"statistic bookkeeping differs from the specification: {c} {v}")
        if len(want) == 0:
            return None if len(got) == 0 else ("cells", f"{len(got)} rows, expected none")
        if got.shape != want.shape or not np.array_equal(got, want, equal_nan=True):
            return "statistics", f"key {key}: {got.ravel()[:3]}, expected {want.ravel()[:3]}"

    def do_find(self, act):
        a, res, u, U, rng = act["args"], act["res"], self.u, self.U, self.rng

        def ask(what, f, ok, want):
            try:
                got = [int(x) for x in np.atleast_1d(f())]
            except Exception as exc:
                return ("refused", f"{what}: {type(exc).__name__}: {exc}") if ok else None
            if not ok:
                return "accepted", f"{what} of absent names gave {got}"
            if got != list(want):
                return "cells", f"{what}: {got}, expected {list(want)}"

        blps = list(a["blps"])
        rng.shuffle(blps)
        tup = rng.random() < 0.5
        bl = [U.BLP[b] if tup else U.blp_int(b) for b in blps]
        bl1 = bl[0] if len(bl) == 1 and rng.random() < 0.5 else bl
        pl = [self.polform(p) for p in a["pols"]]
        pl1 = pl[0] if len(pl) == 1 and rng.random() < 0.5 else pl
        sp = list(a["spws"])
        rng.shuffle(sp)
        sp1 = sp[0] if len(sp) == 1 and rng.random() < 0.5 else sp
        if res["spwok"] and rng.random() < 0.4:
            r = u.get_spw_ranges()
            sp1 = [r[i] for i in sp]
            if len(sp1) == 1 and rng.random() < 0.5:
                sp1 = sp1[0]
        ids = self.spws
        fi, di, n, m = [], [], 0, 0
        for i, s in enumerate(ids):
            nf, nd = U.SPW[s][1:]
            if i in a["spws"]:
                fi += range(n, n + nf)
                di += range(m + (nd // 2 + 1 if self.o.folded else 0), m + nd)
            n, m = n + nf, m + nd
        t = 0.5 * (U.jd(a["t"] // 2) + U.jd(a["t"] - a["t"] // 2))
        out = [ask("rows of baseline-pairs", lambda: u.blpair_to_indices(bl1), res["blpok"], [x - 1 for x in res["rows"]]),
               ask("polarization pairs", lambda: u.polpair_to_indices(pl1), res["polok"], [x - 1 for x in res["pols"]]),
               ask("rows of a time", lambda: u.time_to_indices(t), True, [x - 1 for x in res["time"]]),
               ask("rows of a time and baseline-pairs", lambda: u.time_to_indices(t, blpairs=bl1), res["blpok"],
                   [x - 1 for x in res["timeblp"]]),
               ask("windows", lambda: u.spw_indices(sp1), res["spwok"], sorted(a["spws"])),
               ask("channels of windows", lambda: u.spw_to_freq_indices(sp1), res["spwok"], fi),
               ask("delays of windows", lambda: u.spw_to_dly_indices(sp1), res["spwok"], di)]
        for x in out:
            if x:
                return x
        if res["spwok"]:
            got = u.get_spw_ranges(sorted(a["spws"]))
            for i, r in zip(sorted(a["spws"]), got):
                f0, nf, nd = U.SPW[ids[i]]
                nd = nd - nd // 2 - 1 if self.o.folded else nd
                if not np.allclose(r, (f0, f0 + nf * U.DF, nf, nd), rtol=1e-12):
                    return "cells", f"range of window {ids[i]}: {r}"

    def do_list(self, act):
        u, U, res = self.u, self.U, act["res"]
        want = [U.BLP[b] for b in res["blps"]]
        if [tuple(map(tuple, b)) for b in u.get_blpairs()] != want:
            return "listing", f"baseline-pairs {u.get_blpairs()}, expected {want}"
        if sorted(u.get_polpairs()) != sorted(U.POL[p] for p in res["pols"]):
            return "listing", f"polarization pairs {u.get_polpairs()}"
        keys = u.get_all_keys()
        if len(keys) != len(res["keys"]) or {(k[0], tuple(map(tuple, k[1])), tuple(k[2])) for k in keys} != \
                {(i, U.BLP[b], U.POL[p]) for i, b, p in res["keys"]}:
            return "listing", f"keys {keys[:4]}... ({len(keys)}), expected {len(res['keys'])}"
        # geometry belongs to the baseline-pairs it is listed with
        vec = [(U.BLS[U.BLP[b][0]], U.BLS[U.BLP[b][1]]) for b in res["blps"]]
        for second in (False, True):
            got = np.asarray(u.get_blpair_blvecs(use_second_bl=second))
            w = np.array([np.linalg.norm(v[1 if second else 0]) for v in vec])
            if got.shape != (len(w), 3) or not np.allclose(np.linalg.norm(got, axis=1), w, atol=1e-6):
                return "geometry", f"baseline vectors ({'second' if second else 'first'}) have lengths {np.linalg.norm(got, axis=1)}, expected {w}"
        got = np.asarray(u.get_blpair_seps())
        w = np.array([0.5 * sum(np.linalg.norm(U.BLS[x]) for x in U.BLP[b]) for b, t in self.rows])
        if got.shape != w.shape or not np.allclose(got, w, atol=1e-6):
            return "geometry", f"separations {got}, expected {w}"
        for i, s in enumerate(self.spws):
            d = U.dlys(s)
            d = d[len(d) // 2 + 1:] if self.o.folded else d
            if not np.allclose(np.asarray(u.get_dlys(i)), d):
                return "delays", f"delays of window {s}: {u.get_dlys(i)}"


def work(item):
    seed, traces = item
    r = Replay(seed)
    with contextlib.redirect_stdout(io.StringIO()):
        for t in traces:
            r.run(t)
            if len(r.viol) >= 5:
                break
    return dict(violations=r.viol, counts=r.counts, samples=[traces[0][:6]])


def codes(chk):
    """integer codes, over the whole range of antenna numbers"""
    from hera_pspec import uvpspec, uvpspec_utils as uu
    ants = "0..899" if chk.thorough else "{0, 1, 2, 9, 10, 11, 99, 100, 101, 320, 350, 499, 500, 898, 899}"
    r = core.run_tlc("Codes", "Codes.cfg", dict(Ants=ants, Emit="FALSE" if chk.thorough else "TRUE"), workers=8, timeout=800)
    chk.add_tlc(r, "Codes")
    if chk.thorough:
        r = core.run_tlc("Codes", "Codes.cfg", dict(Ants="{0, 1, 2, 9, 10, 11, 99, 100, 101, 320, 350, 499, 500, 898, 899}", Emit="TRUE"))
    u = uvpspec.UVPSpec()
    for x in r.records:
        a = x["a"]
        try:
            if x["kind"] == "bl":
                n = x["code"][0]
                got = (int(u.antnums_to_bl(tuple(a))), tuple(u.bl_to_antnums(n)), tuple(u.bl_to_antnums(np.int32(n))))
                want = (n, tuple(a), tuple(a))
            elif x["kind"] == "blp":
                n = x["code"][0] * 10**6 + x["code"][1]
                t = ((a[0], a[1]), (a[2], a[3]))
                got = (int(u.antnums_to_blpair(t)), u.blpair_to_antnums(n), u.blpair_to_antnums(np.int64(n)))
                want = (n, t, t)
            else:
                n = x["code"][0]
                s = tuple(POLN[i] for i in a)
                got = (uu.polpair_tuple2int(tuple(a)), uu.polpair_tuple2int(s), uu.polpair_tuple2int((s[0], a[1])),
                       uu.polpair_int2tuple(n), uu.polpair_int2tuple(np.int64(n), pol_strings=True),
                       uu.polpair_int2tuple([n, n]), uu.polpair_tuple2int([tuple(a), s]))
                want = (n, n, n, tuple(a), s, [tuple(a)] * 2, [n, n])
        except Exception as exc:
            got, want = f"{type(exc).__name__}: {exc}", None
        if got != want:
            chk.violation("codes", f"{x['kind']} {a}: {got}, expected {want}", x)
        chk.count("codes compared")
    # round trip over every pair of antennas; codes are all distinct
    seen = set()
    step = 1 if chk.thorough else 7
    for a in range(0, 900):
        for b in range(a % step, 900, step):
            n = int(u.antnums_to_bl((a, b)))
            seen.add(n)
            if tuple(u.bl_to_antnums(n)) != (a, b):
                chk.violation("codes", f"baseline {(a, b)} became {u.bl_to_antnums(n)}", (a, b))
                return
            t = ((a, b), ((7 * a + b) % 900, (a + 13 * b) % 900))
            m = u.antnums_to_blpair(t)
            if u.blpair_to_antnums(m) != t:
                chk.violation("codes", f"baseline-pair {t} became {u.blpair_to_antnums(m)}", t)
                return
            chk.count("round trips")
    if len(seen) != chk.cov["round trips"]:
        chk.violation("codes", "two baselines share a code", None)


def run(chk):
    import hera_pspec  # noqa: F401
    codes(chk)
    traces = core.simulate_traces(chk, "Keys", {}, 1600 if chk.thorough else 240, 24)
    items = [(chk.seed * 100 + i, c) for i, c in enumerate(core.chunks(traces, 32))]
    for res in core.pmap(work, items):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
