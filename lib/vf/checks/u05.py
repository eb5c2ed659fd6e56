"""U05: averaging.  Behaviours of Average.tla replayed on real objects; every number of every averaged cell is
compared with the combination of original cells that the specification prescribes."""
import contextlib
import copy
import io
import os
import random
import shutil
import tempfile

import numpy as np

from .. import core


class Replay:
    def __init__(self, seed):
        from hera_pspec import grouping, uvpspec
        from .. import uvp
        self.U, self.G, self.P = uvp, grouping, uvpspec
        self.rng = random.Random(seed)
        self.viol, self.counts = [], {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ---------------------------------------------------------------- construction
    def err(self, s, ex):
        nd = self.U.SPW[s][2]
        if ex > 2:
            return np.full(nd, np.inf if ex == 3 else np.nan)
        return np.array([2.0 ** ((ex + abs(j - nd // 2)) % 3) for j in range(nd)])

    def construct(self, j):
        U, rng = self.U, self.rng
        self.num = {tuple(c): (i, n, e) for c, i, n, e in j["num"]}
        self.lstoff = rng.choice([0.0, 2 * np.pi - 1.0003])
        o = U.Obj(j["spws"], {tuple(r) for r in j["rows"]}, j["pols"], stats=sorted(j["stats"]), cov=j["cov"],
                  win=None if j["win"] == "no" else j["win"])
        o.polarr = sorted(o.pols)
        rng.shuffle(o.polarr)
        tr = {t: sum(U.TP[t]) * 10 + U.TP[t][0] for t in U.TP}
        blps = sorted(set(b for b, t in o.rows))
        rng.shuffle(blps)
        o.rowlist = sorted(o.rows, key=lambda r: (blps.index(r[0]), tr[r[1]]))
        if rng.random() < 0.5:  # interleave the pairs, keeping each pair's times in order
            o.rowlist.sort(key=lambda r: (tr[r[1]], blps.index(r[0])))
        u = U.build(o)
        for i, s in enumerate(o.spws):
            for r, (b, t) in enumerate(o.rowlist):
                for q, p in enumerate(o.polarr):
                    it, ns, ex = self.num[(s, b, t, p)]
                    u.integration_array[i][r, q] = it
                    u.nsample_array[i][r, q] = ns
                    if "err" in o.stats:
                        u.stats_array["err"][i][r, :, q] = self.err(s, ex)
        for nm in ("lst_1_array", "lst_2_array", "lst_avg_array"):
            setattr(u, nm, (getattr(u, nm) + self.lstoff) % (2 * np.pi))
        u.check()
        self.exact = o.win == "exact"
        return u

    # ---------------------------------------------------------------- expected numbers
    def pos(self, s):
        nd = self.U.SPW[s][2]
        z = nd // 2
        n = nd - z - 1
        return [z + k for k in range(1, n + 1)], [z - k for k in range(1, n + 1)]

    def fold(self, name, x, s):
        if name in ("wgt", "integ"):
            return x
        if name == "nsamp":
            return 2 * x
        p, n = self.pos(s)
        if name == "data" or (name == "win" and self.exact):
            return 0.5 * (x[p] + x[n])
        if name in ("err", "noise_1_of_2"):
            with np.errstate(all="ignore"):
                return (1 / x[p] ** 2 + 1 / x[n] ** 2) ** -0.5
        return 0.25 * sum(x[np.ix_(i, j)] for i in (p, n) for j in (p, n))

    def original(self, name, s, b, t, p):
        U = self.U
        if name == "err":
            return self.err(s, self.num[(s, b, t, p)][2])
        if name == "win" and self.exact:
            return U.xpayload(0, s, b, t, p)
        return np.real_if_close(U.payload(name, 0, s, b, t, p)) if name == "noise_1_of_2" else U.payload(name, 0, s, b, t, p)

    def expected(self, name, c, pre, folded):
        """array `name` of one averaged cell"""
        s, p = c["s"], c["p"]
        nd = self.U.SPW[s][2]
        z = nd // 2
        cls = [abs(j - z) for j in range(nd)]
        if pre:
            cls = [abs(j - z) for j in self.pos(s)[0]]
        W = np.array([c["W"][d] for d in cls], float)

        def x(m):
            v = self.original(name, s, m["b"], m["t"], p)
            return self.fold(name, v, s) if pre else v

        if name == "nsamp":
            out = np.array(c["ns"] / c["mden"] * (2 if pre else 1))
        elif name == "integ":
            out = np.array(c["integ"] / c["W0"] if c["W0"] else 0.0)
        else:
            zero = np.zeros_like(x(c["mem"][0]) if c["mem"] else 0.0)
            out = zero * 0.0 if name not in ("err", "noise_1_of_2") else np.zeros(len(W))
            safe = np.where(W > 0, W, 1.0)
            for m in c["mem"]:
                w = np.array([m["w"][d] for d in cls], float)
                f = m["m"] * w / safe
                v = x(m)
                if name == "wgt":
                    out = out + (m["m"] * m["w"][cls[0]] / c["W0"] if c["W0"] else 0.0) * v
                elif name == "data":
                    out = out + f * v
                elif name == "win":
                    out = out + f.reshape((-1,) + (1,) * (v.ndim - 1)) * v
                elif name in ("covr", "covi"):
                    out = out + c["mden"] / m["m"] * f[:, None] * f[None, :] * v
                else:
                    v2 = np.where(w > 0, np.real(v) ** 2, 0.0)
                    out = out + c["mden"] * m["m"] * w**2 / safe**2 * v2
            if name in ("err", "noise_1_of_2"):
                out = np.where(W > 0, np.sqrt(out), np.inf)
        if folded and not pre:
            out = self.fold(name, out, s)
        return out

    # ---------------------------------------------------------------- comparison
    def compare(self, u, j):
        U = self.U
        bad = []

        def add(clause, text):
            if len(bad) < 8:
                bad.append((clause, text))

        cells = j["cells"]
        tavg_rows = sorted({(c["b"], tuple(c["ts"])) for c in cells})
        pols = [U.POL_OF_INT.get(int(x)) for x in u.polpair_array]
        if sorted(map(str, pols)) != sorted(map(str, j["pols"])):
            return [("axis-pols", f"polarizations {pols}, expected {j['pols']}")]
        if U.spw_ids(u) != j["spws"]:
            return [("axis-windows", f"windows {U.spw_ids(u)}, expected {j['spws']}")]
        # rows
        want = {}
        for b, ts in tavg_rows:
            t1 = np.mean([U.jd(U.TP[t][0]) for t in ts])
            t2 = np.mean([U.jd(U.TP[t][1]) for t in ts])
            want[(b, ts)] = (t1, t2)
        rows = []
        for x, t1, t2 in zip(u.blpair_array, u.time_1_array, u.time_2_array):
            b = U.BLP_OF_INT.get(int(x))
            hit = [k for k, v in want.items() if k[0] == b and abs(v[0] - t1) < 1e-8 and abs(v[1] - t2) < 1e-8]
            rows.append(hit[0] if len(hit) == 1 else (b, float(t1), float(t2)))
        if sorted(map(str, rows)) != sorted(map(str, tavg_rows)):
            return [("axis-rows", f"rows {rows}, expected {tavg_rows}")]
        if int(u.Nbltpairs) != len(rows) or int(u.Nblpairs) != len(set(b for b, _ in rows)):
            add("count", f"Nbltpairs {u.Nbltpairs}, Nblpairs {u.Nblpairs} for rows {rows}")
        ntp = len({(round(v[0] * 1e6), round(v[1] * 1e6)) for v in want.values()})
        if int(u.Ntpairs) != ntp:
            add("count", f"Ntpairs {u.Ntpairs}, expected {ntp}")
        for r, k in enumerate(rows):
            t1, t2 = want[k]
            for nm, w in (("time_avg_array", (t1 + t2) / 2),):
                if abs(getattr(u, nm)[r] - w) > 1e-8:
                    add("axis-times", f"{nm}[{k}] = {getattr(u, nm)[r]}, expected {w}")
            for nm, w in (("lst_1_array", t1), ("lst_2_array", t2), ("lst_avg_array", (t1 + t2) / 2)):
                d = (getattr(u, nm)[r] - U.lst(w) - self.lstoff + np.pi) % (2 * np.pi) - np.pi
                if abs(d) > 1e-7:
                    add("axis-times", f"{nm}[{k}] = {getattr(u, nm)[r]}, expected {(U.lst(w) + self.lstoff) % (2 * np.pi)}")
        bls = sorted(set(bl for b, _ in rows for bl in U.BLP[b]))
        got = {int(x): tuple(v) for x, v in zip(u.bl_array, u.bl_vecs)}
        if set(got) != {U.bl_int(x) for x in bls} or int(u.Nbls) != len(bls) or \
                any(not np.allclose(got[U.bl_int(x)], U.BLS[x]) for x in bls):
            add("axis-baselines", f"baselines {got}")
        if bool(u.folded) != j["folded"]:
            add("static", "folded flag wrong")
        if not np.array_equal(u.scalar_array, np.array([[U.scalar(s, p) for p in pols] for s in j["spws"]])):
            add("scalar", "normalization scalars changed")
        if u.label_1_array.shape != (len(j["spws"]), len(rows), len(pols)) or u.label_2_array.shape != u.label_1_array.shape:
            return bad + [("labels", f"label arrays have shape {u.label_1_array.shape}")]
        labs = [U._s(x) for x in u.labels]
        if sorted(getattr(u, "stats_array", {})) != sorted(j["stats"]):
            return bad + [("optional", f"statistics {sorted(getattr(u, 'stats_array', {}))}, expected {sorted(j['stats'])}")]
        for nm, has in (("cov_array_real", j["cov"]), ("window_function_array", j["win"] != "no")):
            if hasattr(u, nm) != has:
                return bad + [("optional", f"{nm} {'missing' if has else 'appeared'}")]
        names = ["data", "wgt", "integ", "nsamp"] + sorted(j["stats"]) + (["covr", "covi"] if j["cov"] else []) + \
            (["win"] if j["win"] != "no" else [])
        for c in cells:
            s, p, b = c["s"], c["p"], c["b"]
            i = j["spws"].index(s)
            key = (i, U.blp_int(b), U.POLI[p])
            blrows = [k for k in rows if k[0] == b]
            at = blrows.index((b, tuple(c["ts"])))
            r = rows.index((b, tuple(c["ts"])))
            q = pols.index(p)
            la, lb = U.labels_of(0, s, b, c["ts"][0], p)
            if (labs[u.label_1_array[i, r, q]], labs[u.label_2_array[i, r, q]]) != (la, lb):
                add("labels", f"labels of window {s} pair {b} pol {p}")
            for a in names:
                w = self.expected(a, c, j["pre"], j["folded"])
                try:
                    if a == "data":
                        g = u.get_data(key)
                    elif a == "wgt":
                        g = u.get_wgts(key)
                    elif a == "integ":
                        g = u.get_integrations(key)
                    elif a == "nsamp":
                        g = u.get_nsamples(key)
                    elif a in ("covr", "covi"):
                        g = u.get_cov(key, component="real" if a == "covr" else "imag")
                    elif a == "win":
                        g = u.get_window_function(key)
                    else:
                        g = u.get_stats(a, key)
                    g = np.asarray(g)[at]
                except Exception as exc:
                    add(a, f"{a} of window {s} pair {b} pol {p}: {type(exc).__name__}: {exc}")
                    continue
                self.count("averaged values compared", int(np.size(w)))
                if a in ("err", "noise_1_of_2"):
                    bigx, bigw = ~np.isfinite(g) | (np.abs(g) > 1e15), ~np.isfinite(w)
                    if g.shape != w.shape or not np.array_equal(bigx, bigw) or not np.allclose(g[~bigx], w[~bigw], rtol=1e-8, atol=0):
                        add(a, f"error {a} of window {s} pair {b} times {c['ts']} pol {p}: {g}, expected {w}")
                elif g.shape != np.shape(w) or not np.allclose(g, w, rtol=1e-9, atol=1e-9):
                    add(a, f"{a} of window {s} pair {b} times {c['ts']} pol {p}: {np.ravel(g)[:3]}, expected {np.ravel(w)[:3]}")
        return bad

    # ---------------------------------------------------------------- steps
    def run(self, trace):
        self.trace, self.done, self.u = trace, [], None
        self.dir = tempfile.mkdtemp(prefix="avg_")
        try:
            for act in trace:
                self.done.append(act)
                self.count("steps")
                self.count("op:" + act["op"] + ("" if act["ok"] else ":refused"))
                if not self.step(act):
                    return False
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)
        return True

    def fail(self, clause, msg):
        act = self.done[-1]
        self.viol.append(dict(clause=clause, key=act["op"] + ":" + clause, detail=f"{act['op']} {act['args']}: {msg}",
                              replay=dict(behaviour=self.done)))
        return False

    def request(self, a):
        U, rng = self.U, self.rng
        kw = dict(time_avg=a["tavg"])
        if a["groups"]:
            tup = rng.random() < 0.5
            kw["blpair_groups"] = [[U.BLP[b] if tup else U.blp_int(b) for b in g] for g in a["groups"]]
            if a["wts"]:
                f = float if rng.random() < 0.5 else int
                kw["blpair_weights"] = [[f(x) for x in g] for g in a["wts"]]
        if a["field"] or rng.random() < 0.3:
            fl = sorted(a["field"])
            kw["error_field"] = fl[0] if len(fl) == 1 and rng.random() < 0.5 else fl
        if a["how"] == "err":
            kw["error_weights"] = "err"
        if not a["norm"]:
            kw["normalize_weights"] = False
        if a["bad"] == "pair":
            kw["blpair_groups"][rng.randrange(len(a["groups"]))].append(((7, 8), (7, 8)) if tup else U.blp_int(0) * 0 + 107108107108)
            if a["wts"]:
                kw["blpair_weights"] = [w + [1.0] * (len(g) - len(w)) for w, g in zip(kw["blpair_weights"], kw["blpair_groups"])]
        elif a["bad"] == "shape" and a["wts"]:
            kw["blpair_weights"][-1].pop() if rng.random() < 0.5 else kw["blpair_weights"].pop()
        elif a["bad"] == "field":
            kw["error_field"] = ["nosuch"]
        elif a["bad"] == "weights":
            kw["blpair_weights"] = [[1.0]]
        return kw

    def do_average(self, act):
        a = act["args"]
        kw = self.request(a)
        before, kwc = copy.deepcopy(self.u), copy.deepcopy(kw)
        f = (lambda **k: self.G.average_spectra(self.u, **k)) if self.rng.random() < 0.5 or not a["norm"] else self.u.average_spectra
        try:
            out = f(inplace=a["inplace"], **kw)
        except Exception as exc:
            if act["ok"]:
                return self.fail("outcome", f"raised {type(exc).__name__}: {exc}")
            d = self.U.delta(before, self.u)
            return not d or self.fail("input-modified", f"refused averaging changed the object in {d}")
        if not act["ok"]:
            return self.fail("outcome", "was accepted, must be refused")
        if repr(kw) != repr(kwc):
            return self.fail("input-modified", "averaging changed its arguments")
        if a["inplace"]:
            out = self.u
        else:
            d = self.U.delta(before, self.u)
            if d:
                return self.fail("input-modified", f"averaging into a copy changed the original in {d}")
        return self.judge(out, act)

    def judge(self, u, act):
        try:
            u.check()
        except Exception as exc:
            return self.fail("check", f"result is inconsistent: {exc}")
        bad = self.compare(u, act["obj"]) if act["obj"]["kind"] == "avg" else []
        if bad:
            return self.fail(bad[0][0], "; ".join(x[1] for x in bad[:3]))
        return True

    def step(self, act):
        op = act["op"]
        if op == "make":
            self.u = self.construct(act["obj"])
            return True
        if op == "average":
            return self.do_average(act)
        try:
            if op == "fold":
                self.u.fold_spectra()
            elif op == "select":
                kw = {}
                bl = [self.U.BLP[b] for b in act["args"]["blps"]]
                self.u.select(blpairs=bl, polpairs=[self.U.POLI[p] for p in act["args"]["pols"]], inplace=True, **kw)
            elif op == "io":
                p = os.path.join(self.dir, "x.h5")
                self.u.write_hdf5(p, overwrite=True)
                self.u = self.P.UVPSpec()
                self.u.read_hdf5(p)
            elif op == "again":
                self.u = self.u.average_spectra(inplace=False)
        except Exception as exc:
            return self.fail("outcome", f"raised {type(exc).__name__}: {exc}")
        return self.judge(self.u, act)


def work(item):
    seed, traces = item
    r = Replay(seed)
    with contextlib.redirect_stdout(io.StringIO()):
        for t in traces:
            r.run(t)
            if len(r.viol) >= 5:
                break
    return dict(violations=r.viol, counts=r.counts, samples=[[dict(op=x["op"], args=x["args"], ok=x["ok"]) for x in traces[0][:6]]])


def run(chk):
    consts = dict(Spws="0..4", Blps="0..7", Tps="0..6", Pols="0..3")
    num, depth = (1600, 14) if chk.thorough else (240, 10)
    traces = core.simulate_traces(chk, "Average", consts, num, depth, 8)
    items = [(chk.seed * 100 + i, c) for i, c in enumerate(core.chunks(traces, 32))]
    for res in core.pmap(work, items, 8):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
    chk.assumptions += ["times of the pairs in one group come in the same order (documented limitation of the library)",
                        "weights compared at relative accuracy 1e-8"]
