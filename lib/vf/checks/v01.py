"""V01: plots show exactly the spectra asked for.

Plots.tla states, for requests of every kind, the curves (or image rows) of a plot: which cells each is the mean of, and
which are blank.  Its behaviours are drawn (matplotlib's artists, nothing is rendered); every curve, error bar, image row,
axis and label is compared with numbers formed from the cells the specification names."""
import contextlib
import hashlib
import io
import os
import random
import re
import tempfile
import warnings

import numpy as np

from .. import core

DEX = 1.5 * 2**19  # shifts the payloads so that they have both signs


class Bad(Exception):
    pass


def digest(x, depth=0):
    """everything an object holds"""
    if isinstance(x, np.ndarray):
        return (str(x.dtype), x.shape, hashlib.md5(np.ascontiguousarray(x).tobytes()).hexdigest() if x.dtype != object else repr(x))
    if isinstance(x, dict):
        return tuple(sorted((repr(k), digest(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(digest(v, depth + 1) for v in x)
    if hasattr(x, "__dict__") and depth < 3 and not isinstance(x, type):
        return digest(vars(x), depth + 1)
    return repr(x)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    m = float(np.max(np.abs(b), initial=0, where=np.isfinite(b)))
    return np.allclose(a, b, rtol=1e-7, atol=1e-7 * m, equal_nan=True)


class Replay:
    def __init__(self, seed):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        from hera_pspec import plot
        from .. import uvd, uvp
        self.plt, self.P, self.U, self.V = plt, plot, uvp, uvd
        self.rng = random.Random(seed)
        self.seed = seed
        self.viol, self.counts = [], {}
        self.memo = {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ------------------------------------------------------------------ objects and numbers
    def raw(self, arr, s, b, t, p):
        x = self.U.leaf(arr, 0, s, b, t, p)
        if arr == "data":
            return x - DEX * (1 + 1j)
        if arr == "err":
            return np.abs(x) + 0j
        return x * (1 + 0.25j) if arr == "noise_1_of_2" else x

    def make(self, a):
        o = self.o = a["obj"]
        U = self.U
        self.rows = sorted(tuple(r) for r in o["rows"])
        self.blank = {tuple(x) for x in o["blank"]}
        blps = sorted({b for b, t in self.rows})
        self.rng.shuffle(blps)
        lst = sorted(self.rows, key=lambda r: (blps.index(r[0]), r[1]) if o["seed"] % 3 else (r[1], blps.index(r[0])))
        pols = list(o["pols"])
        self.rng.shuffle(pols)
        self.u = u = U.build(U.Obj(o["spws"], self.rows, pols, stats=sorted(o["stats"]), rowlist=lst, polarr=pols), cosmo=1)
        for i, s in enumerate(o["spws"]):
            for r, (b, t) in enumerate(lst):
                for q, p in enumerate(pols):
                    u.data_array[i][r, :, q] = self.raw("data", s, b, t, p)
                    for st in o["stats"]:
                        u.stats_array[st][i][r, :, q] = self.raw(st, s, b, t, p)
                    if (s, b, t, p) in self.blank:
                        u.integration_array[i][r, q] = 0.0
        if not o["h"]:
            u.norm_units = "Mpc^3"
        if o["folded"]:
            u.fold_spectra()
        self.before = digest(u)

    def halves(self, s):
        nd = self.U.SPW[s][2]
        z = nd // 2
        n = nd - z - 1
        return [z + k for k in range(1, n + 1)], [z - k for k in range(1, n + 1)]

    def fold(self, arr, x, s):
        pos, neg = self.halves(s)
        if arr == "data":
            return 0.5 * (x[pos] + x[neg])
        return (1 / x[pos] ** 2 + 1 / x[neg] ** 2) ** -0.5

    def numbers(self, arr, c, rq, dsq, how="", rep=None):
        """the (complex) spectrum of a curve"""
        o, U = self.o, self.U
        s, p = o["spws"][rq["spw"] - 1], rq["pol"]
        cells = [(s, b, t, p) for b, t in c["mem"]]
        pre = o["folded"]
        get = lambda name, k: self.fold(name, self.raw(name, *k), s) if pre else self.raw(name, *k)
        if len(cells) == 1:
            x = np.array(get(arr, cells[0]))
            if how != "err" and cells[0] in self.blank and (rq["avgb"] or rq["avgt"]):
                x = x * 0
        else:
            num, den = 0.0, 0.0
            for k in cells:
                w = 1 / np.real(get("err", k)) ** 2 if how == "err" else \
                    (0.0 if k in self.blank else self.raw("integ", *k) ** 2 * self.raw("nsamp", *k))
                num, den = num + w * get(arr, k), den + w
            with np.errstate(all="ignore"):
                x = np.where(den == 0, 0.0, num / np.where(den == 0, 1.0, den))
        fold = rq["fold"]
        if dsq:
            k = U.kmag(1, s, c["b"] if rep is None else rep, o["h"]) ** 3 / (2 * np.pi**2)
            x = x * (k[self.halves(s)[0]] if pre else k)
        if fold:
            x = self.fold(arr, x, s)
        return x

    def little(self, *labels):
        """are the wave numbers of these axes in h/Mpc?"""
        said = {"h" in re.sub(r"\\[a-zA-Z]+|[^A-Za-z0-9]", " ", x).split() for x in labels if x}
        if len(said) > 1:
            raise Bad(f"units of the axes {labels}")
        return not said or said.pop()

    def xaxis(self, rq, delay, little=True):
        o, U = self.o, self.U
        s = o["spws"][rq["spw"] - 1]
        x = U.dlys(s)
        if rq["fold"] or o["folded"]:
            x = x[self.halves(s)[0]]
        if delay:
            return x * 1e9
        z = U.COSMO[1].f2z(np.mean(U.freqs(s)))
        return x * U.COSMO[1].tau_to_kpara(z, little_h=little)

    def args(self, rq):
        U, rng = self.U, self.rng
        one = lambda b: U.blp_int(b) if rng.random() < 0.4 else U.BLP[b]
        groups = []
        for g in rq["groups"]:
            x = [one(b) for b in g]
            groups.append(x[0] if len(x) == 1 and rng.random() < 0.6 else x)
        if rq["wrong"] == "antpair":
            groups.append((1, 2))
        if rq["wrong"] == "name":
            groups.append("x")
        names = U.POL[rq["pol"]]
        pol = rng.choice([U.POLI[rq["pol"]], names] + ([names[0]] if names[0] == names[1] else []))
        kw = {}
        if rq["times"]:
            kw["times"] = [U.jd(U.TP[t][0]) for t in sorted(rq["times"], key=lambda t: rng.random())]
        return groups, pol, kw

    def name_of(self, pol):
        return str((pol, pol)) if isinstance(pol, str) else str(pol)

    def pairs_name(self, g):
        q = [self.U.BLP[b] for b in g]
        return str(q[0]) if len(q) == 1 else str(q)

    # ------------------------------------------------------------------ curves
    def spectrum(self, a):
        rq, rng, U = a["req"], self.rng, self.U
        groups, pol, kw = self.args(rq)
        comp = rng.choice(["real", "imag", "abs"])
        delay, dsq, log = rng.random() < 0.6, rng.random() < 0.4, rng.random() < 0.5
        lines, markers = rng.choice([(True, False), (True, False), (True, True), (False, True)])
        label = rng.choice(["auto", "auto", "key", "blpair", "blpairt"])
        titled, legend = rng.random() < 0.8, rng.random() < 0.5
        kw.update(average_blpairs=rq["avgb"], average_times=rq["avgt"], fold=rq["fold"], delay=delay, deltasq=dsq, legend=legend,
                  title_legend=titled, component=comp if rq["wrong"] != "component" else "phase", lines=lines, markers=markers,
                  error=rq["error"] or None, plot_stats=rq["stat"] or None, logscale=log, label_type=label)
        given = rng.random() < 0.3
        if given:
            _, kw["ax"] = self.plt.subplots(1, 1)
            kw["ax"].plot([1, 2], [3, 4], ls=":")
        keep = repr(groups)
        out = self.P.delay_spectrum(self.u, groups, rq["spw"] - 1, pol, **kw)
        if repr(groups) != keep:
            raise Bad(f"the list of baseline pairs was changed: {keep} {groups}")
        if not a["ok"]:
            return False
        if given != (out is None):
            raise Bad(f"a figure was returned: {out}, axes given: {given}")
        ax = kw["ax"] if given else out.axes[0]
        drawn = list(ax.lines)
        if given:
            if not (len(drawn) and np.array_equal(drawn[0].get_ydata(), [3, 4])):
                raise Bad("the curve that was there is gone")
            drawn = drawn[1:]
        bars = [c for c in ax.collections]
        cast = {"real": np.real, "imag": np.imag, "abs": np.abs}[comp]
        x = self.xaxis(rq, delay, self.little(ax.get_xlabel()))
        conv = dsq and not delay
        want = []
        for c in a["out"]:
            y = cast(self.numbers(rq["stat"] or "data", c, rq, conv)).astype(float)
            e = cast(self.numbers(rq["error"], c, rq, conv)).astype(float) if rq["error"] else None
            if c["blank"]:
                y = y * np.nan
                e = None if e is None else e * np.nan
            want.append((c, y, e))
        # every curve is drawn, once
        left = [(np.asarray(q.get_xdata(), float), np.asarray(q.get_ydata(), float), q) for q in drawn]

        def take(c, xs, ys, kind):
            hit = [q for q in left if same(q[0], xs) and same(q[1], ys) and (q[2].get_linestyle() == "None") == (kind != "line")
                   and (kind != "empty" or q[2].get_markerfacecolor() == "None") and (kind != "full" or q[2].get_markerfacecolor() != "None")]
            good = [q for q in hit if kind == "empty" or (kind == "full" and lines) or self.labelled(q[2].get_label(), ax, c, a, pol, label, titled)]
            if not good:
                raise Bad(f"{kind} of pairs {c['pairs']} times {c['ts']} " + (
                    f"has label {[q[2].get_label() for q in hit]!r} (title {ax.get_title()!r})" if hit else
                    f"is not drawn: {ys[:4]} at {xs[:3]}; drawn {[list(q[1][:3]) for q in left][:6]}"))
            left.remove(next(q for q in left if q is good[0]))

        for c, y, e in want:
            if lines:
                take(c, x, np.abs(y) if log else y, "line")
            if markers and log:
                take(c, x[y >= 0], np.abs(y[y >= 0]), "full")
                take(c, x[y < 0], np.abs(y[y < 0]), "empty")
            elif markers:
                take(c, x, y, "full")
        if left:
            raise Bad(f"{len(left)} more curves are drawn than asked for: {[list(q[1][:3]) for q in left][:4]}")
        if rq["error"]:
            segs = [np.array([g for g in b.get_segments() if len(g) == 2 and np.isfinite(g).all()]).reshape(-1, 2, 2) for b in bars if hasattr(b, "get_segments")]
            for c, y, e in want:
                y = np.abs(y) if log else y
                w = np.array([[[i, j - k], [i, j + k]] for i, j, k in zip(x, y, e) if np.isfinite(j) and np.isfinite(k)]).reshape(-1, 2, 2)
                i = next((i for i, g in enumerate(segs) if g.shape == w.shape and same(g, w)), None)
                if i is None:
                    raise Bad(f"error bars of pairs {c['pairs']} times {c['ts']}: none is {w[:2].tolist()} ... but {[g[:2].tolist() for g in segs]}")
                segs.pop(i)
            if segs:
                raise Bad(f"{len(segs)} more error bars")
        elif bars:
            raise Bad("error bars that were not asked for")
        if (ax.get_yscale() == "log") != log:
            raise Bad(f"scale {ax.get_yscale()}")
        if not rq["stat"] and ("Delta" in ax.get_ylabel()) != conv:
            raise Bad(f"deltasq={dsq}, delay={delay}: labelled {ax.get_ylabel()!r}")
        if ("tau" in ax.get_xlabel()) != delay:
            raise Bad(f"delay={delay}: labelled {ax.get_xlabel()!r}")
        leg = ax.get_legend()
        if leg is not None and not legend:
            raise Bad("a legend that was not asked for")
        self.count("curves", len(want))
        return True

    def labelled(self, text, ax, c, a, pol, label, titled):
        """the label (with the title) names this curve"""
        rq, U = a["req"], self.U
        anon = text.startswith("_")
        if not titled:
            return anon
        pairs, polname = self.pairs_name(c["pairs"]), self.name_of(pol)
        t = U.jd(U.TP[c["ts"][0]][0])
        if label == "key":
            return text == str((rq["spw"] - 1, pairs, polname))
        if label == "blpair":
            return text == pairs
        if label == "blpairt":
            return text.startswith(pairs) and (len(c["ts"]) > 1 or text.endswith(f"{t:0.5f}"))
        name = "" if anon else text
        title = ax.get_title()
        part = lambda src, f: (re.search(f + r"=(.*?)(?: \| |, (?:spw|pol|lst)=|$)", src) or [None, None])[1]
        for f, v in (("spw", str(rq["spw"] - 1)), ("pol", polname), ("blpair", pairs), ("lst", None)):
            got = part(name, f)
            if got is None:
                got = part(title, f)
            if f == "blpair":
                if got is None and rq["avgb"] and len({str(x["pairs"]) for x in a["out"]}) == 1:
                    continue
            if f == "lst":
                if len(c["ts"]) > 1:
                    continue
                v = f"{U.lst(t) * 12 / np.pi:0.3f} hr"
            if got != v:
                return False
        return True

    # ------------------------------------------------------------------ images
    def component(self, comp, x, log):
        """values of the image; where log of negative values was asked for: None, to be shown as lower than all"""
        y = {"real": np.real, "imag": np.imag, "abs": np.abs, "abs-real": lambda v: np.abs(np.real(v)),
             "abs-imag": lambda v: np.abs(np.imag(v))}[comp](x)
        under = (y < 0) if log and comp in ("real", "imag") else np.zeros(y.shape, bool)
        if log:
            with np.errstate(all="ignore"):
                y = np.log10(np.abs(y))
        return y, under

    def compare(self, got, y, under, what):
        got = np.asarray(got, float)
        if got.shape != y.shape or not same(np.where(under, 0, got), np.where(under, 0, y)):
            raise Bad(f"{what}: shows {got.ravel()[:5]}, specified {y.ravel()[:5]}")
        ok = ~under & np.isfinite(y)
        if under.any() and not (np.isfinite(got[under]).all() and (not ok.any() or (got[under] < y[ok].min()).all())):
            raise Bad(f"{what}: negative values are shown as {got[under][:4]}, others from {y[ok].min() if ok.any() else None}")

    def waterfall(self, a):
        rq, rng, U = a["req"], self.rng, self.U
        groups, pol, kw = self.args(rq)
        comp = rng.choice(["real", "imag", "abs", "abs-real", "abs-imag"])
        delay, dsq, log, hrs = rng.random() < 0.6, rng.random() < 0.4, rng.random() < 0.6, rng.random() < 0.6
        title = rng.choice(["blpair", "blpair", "blvec"])
        kw.update(average_blpairs=rq["avgb"], fold=rq["fold"], delay=delay, deltasq=dsq, component=comp if rq["wrong"] != "component" else "phase",
                  log=log, lst_in_hrs=hrs, title_type=title, colorbar=rng.random() < 0.2)
        panels = {}
        for c in a["out"]:
            panels.setdefault(c["b"], []).append(c)
        given = rng.random() < 0.3 and panels
        if given:
            n = len(panels) + rng.randrange(2)
            fig, axes = self.plt.subplots(n, 1)
            kw["axes"] = axes if n > 1 else rng.choice([axes, [axes]])
        keep = repr(groups)
        out = self.P.delay_waterfall(self.u, groups, rq["spw"] - 1, pol, **kw)
        if repr(groups) != keep:
            raise Bad(f"the list of baseline pairs was changed: {keep} {groups}")
        if not a["ok"]:
            return False
        if bool(given) != (out is None):
            raise Bad(f"a figure was returned: {out}, axes given: {given}")
        fig = fig if given else out
        shown = [ax for ax in fig.axes if ax.images]
        if len(shown) != len(panels):
            raise Bad(f"{len(shown)} panels for pairs {sorted(panels)}")
        x = self.xaxis(rq, delay, self.little(*[ax.get_xlabel() for ax in shown]))
        conv = dsq and not delay
        left = list(shown)
        for b, cs in panels.items():
            y = np.array([self.numbers("data", c, rq, conv) * (np.nan if c["blank"] else 1.0) for c in cs])
            y, under = self.component(comp, y, log)
            err = None
            for ax in left:
                im = ax.images[0]
                if title == "blpair" and not all(str(bl) in ax.get_title() for bl in U.BLP[b]):
                    continue
                try:
                    self.compare(np.ma.filled(im.get_array().astype(float), np.nan), y, under, f"panel {ax.get_title()!r} of pair {b} {comp}")
                except Bad as exc:
                    err = err or exc
                    continue
                e = im.get_extent()
                lst = np.unwrap([U.lst(U.jd(U.TP[c["ts"][0]][0])) for c in cs])
                want = lst[[-1, 0]] * (12 / np.pi if hrs else 1)
                off = (np.array(e[2:]) - want) / (24 if hrs else 2 * np.pi)
                if not same(e[:2], x[[0, -1]]) or not (np.allclose(off, np.round(off), atol=1e-6) and np.isclose(off[0], off[1], atol=1e-6)):
                    err = Bad(f"panel {ax.get_title()!r}: axes {e}, specified {x[[0, -1]]} and LSTs {want}")
                    continue
                if title == "blvec":
                    v = 0.5 * (np.array(U.BLS[U.BLP[b][0]]) + np.array(U.BLS[U.BLP[b][1]]))
                    m = re.search(r"len ([\d.]+) m", ax.get_title())
                    if not m or abs(float(m[1]) - np.hypot(v[0], v[1])) > 0.011 and abs(float(m[1]) - np.linalg.norm(v)) > 0.011:
                        err = Bad(f"panel titled {ax.get_title()!r} for vector {v}")
                        continue
                left.remove(ax)
                break
            else:
                raise err or Bad(f"no panel is titled for pair {U.BLP[b]}: {[ax.get_title() for ax in left]}")
        sup = fig._suptitle.get_text() if fig._suptitle is not None else ""
        if ("Delta" in sup) != conv:
            raise Bad(f"deltasq={dsq}, delay={delay}: titled {sup!r}")
        f = U.freqs(self.o["spws"][rq["spw"] - 1])[0] / 1e6
        if f"{np.around(f, 2)} --" not in sup:
            raise Bad(f"titled {sup!r}, the window begins at {f}")
        self.count("panels", len(panels))
        return True

    def wedge(self, a):
        rq, rng, U = a["req"], self.rng, self.U
        _, pol, kw = self.args(rq)
        pol = U.POLI[rq["pol"]] if isinstance(pol, str) else pol
        pairs = [g[0] for g in rq["groups"]]
        comp = rng.choice(["real", "imag", "abs", "abs-real", "abs-imag"])
        delay, dsq, log, rotate = rng.random() < 0.6, rng.random() < 0.4, rng.random() < 0.6, rng.random() < 0.4
        cbar, centre, hor = rng.random() < 0.2, rng.random() < 0.3, rng.random() < 0.3
        flips = [rng.random() < 0.2, rng.random() < 0.2]
        if not a["all"]:
            kw["blpairs"] = [U.BLP[b] for b in pairs]
        kw.update(fold=rq["fold"], delay=delay, deltasq=dsq, component=comp if rq["wrong"] != "component" else "phase", log10=log, rotate=rotate,
                  error_weights=rq["stat"] or None, colorbar=cbar, center_line=centre, horizon_lines=hor, flip_xax=flips[0], flip_yax=flips[1])
        given = rng.random() < 0.3
        if given:
            fig, kw["ax"] = self.plt.subplots(1, 1)
        keep = repr(kw.get("blpairs"))
        if a["loose"] or a["ok"] and len(self.xaxis(rq, True)) < 2:
            try:
                self.P.delay_wedge(self.u, rq["spw"] - 1, pol, **kw)
            except Exception:
                pass
            return None
        out = self.P.delay_wedge(self.u, rq["spw"] - 1, pol, **kw)
        if repr(kw.get("blpairs")) != keep:
            raise Bad("the list of baseline pairs was changed")
        if not a["ok"]:
            return False
        if given != (out is None):
            raise Bad(f"a figure was returned: {out}, axes given: {given}")
        ax = kw["ax"] if given else out.axes[0]
        mesh = ax.collections[0]
        edges = np.asarray(mesh.get_coordinates())
        val = np.ma.filled(np.ma.asarray(mesh.get_array()).astype(float), np.nan).reshape(edges.shape[0] - 1, edges.shape[1] - 1)
        xe, ye = edges[0, :, 0], edges[:, 0, 1]
        if rotate:  # baselines along x
            xe, ye, val = ye, xe, val.T
        little = self.little(ax.get_xlabel(), ax.get_ylabel())
        x = self.xaxis(rq, delay, little)
        s = self.o["spws"][rq["spw"] - 1]
        scale = 1.0 if delay else U.COSMO[1].bl_to_kperp(U.COSMO[1].f2z(np.mean(U.freqs(s))), little_h=little)
        conv = dsq and not delay
        if val.shape != (len(a["out"]), len(x)):
            raise Bad(f"{val.shape[0]} rows of {val.shape[1]} for {len(a['out'])} baseline lengths and {len(x)} delays")
        where = lambda e, v: int(np.searchsorted(e, v)) - 1
        cols = [where(xe, v) for v in x]
        if cols != list(range(len(x))):
            raise Bad(f"delays {x} are in columns {cols}")
        used, lens = [], []
        for c in a["out"]:
            members = sorted({b for b, t in c["mem"]})
            ls = [np.mean([np.linalg.norm(U.BLS[bl]) for bl in U.BLP[b]]) if len(set(U.BLP[b])) == 1 else
                  np.linalg.norm(0.5 * (np.array(U.BLS[U.BLP[b][0]]) + np.array(U.BLS[U.BLP[b][1]]))) for b in members]
            at = {where(ye, v * scale) for v in (min(ls), max(ls))}
            if len(at) != 1 or not 0 <= min(at) < len(val):
                raise Bad(f"baselines of {ls} m are at rows {at} of {ye}")
            k = at.pop()
            used.append(k)
            lens.append((ls, k))
            if c["blank"] and rq["stat"] == "":
                continue
            err = None
            for rep in members if conv else members[:1]:
                y, under = self.component(comp, self.numbers("data", c, rq, conv, rq["stat"], rep), log)
                try:
                    self.compare(val[k], y, under, f"row {k}: {comp} of pairs {members}")
                    break
                except Bad as exc:
                    err = exc
            else:
                raise err
        if used != list(range(len(val))):
            raise Bad(f"rows {used}")
        if hor:
            from hera_pspec import conversions
            tau = 1e9 if delay else U.COSMO[1].tau_to_kpara(U.COSMO[1].f2z(np.mean(U.freqs(s))), little_h=little)
            fold = rq["fold"] or self.o["folded"]
            marks = []
            for q in ax.lines:
                px, py = np.asarray(q.get_xdata(), float), np.asarray(q.get_ydata(), float)
                if rotate:
                    px, py = py, px
                if px[0] != 0:
                    marks.append((px[0], where(ye, py.mean())))
            want = [(sg, v, k) for v, k in lens for sg in ((1,) if fold else (1, -1))]
            if len(marks) != len(want):
                raise Bad(f"{len(marks)} horizon lines for {len(lens)} lengths, folded {fold}")
            for sg, ls, k in want:
                h = [sg * v / conversions.units.c * tau for v in (min(ls), max(ls))]
                if not any(m[1] == k and min(h) * (1 - sg * 1e-4) <= m[0] <= max(h) * (1 + sg * 1e-4) for m in marks):
                    raise Bad(f"no horizon line of baselines of {ls} m at {h} in row {k}: {marks}")
        if [ax.xaxis_inverted(), ax.yaxis_inverted()] != flips:
            raise Bad(f"axes inverted {[ax.xaxis_inverted(), ax.yaxis_inverted()]}, asked {flips}")
        labs = [ax.get_xlabel(), ax.get_ylabel()][:: -1 if rotate else 1]
        if ("tau" in labs[0]) != delay or ("vec" in labs[1]) != delay:
            raise Bad(f"delay={delay} rotate={rotate}: labels {labs}")
        if cbar:
            t = " ".join(q.get_ylabel() for q in ax.get_figure().axes if q is not ax)
            if ("Delta" in t) != conv:
                raise Bad(f"deltasq={dsq}, delay={delay}: colours labelled {t!r}")
        self.count("wedges")
        return True

    # ------------------------------------------------------------------ files
    def files(self, a):
        import matplotlib.figure as mf
        rq, rng = a["req"], self.rng
        bls, pols = [(0, 1), (1, 2), (0, 2)], ["xx", "yy", "xy", "yx"]
        mybls, mypols = [bls[i - 1] for i in rq["bls"]], [pols[i - 1] for i in rq["pols"]]
        uvd = self.V.build(bls=mybls, pols=mypols, ntimes=3, nfreq=5, seed=self.seed + rng.randrange(100),
                           flags=lambda bl, p, t, f: np.random.default_rng(bl[0] * 7 + bl[1] + 3 * t).random(f) < 0.4)
        before = self.V.state(uvd)
        mode = rng.choice(["log", "abs", "phs", "real"] if rq["what"] == "data" else ["real", "abs"] if rq["what"] == "nsamples" else ["real"])
        saved = {}
        keep = mf.Figure.savefig

        def save(fig, fname, *args, **kw):
            saved.setdefault(str(fname), []).append([np.ma.filled(np.ma.asarray(im.get_array()).astype(float), np.nan)
                                                     for x in fig.axes for im in x.images])

        with tempfile.TemporaryDirectory(prefix="vf_v01_") as d:
            base = d + "/a.b/w.{pol}.{bl}"
            os.makedirs(d + "/a.b")
            ext = None if rq["ext"] == "none" else rq["ext"]
            if rq["dotted"] or ext is None:
                base += "." + (ext or "png")
            kw = dict(data=rq["what"] if rq["wrong"] != "what" else "weights", plot_mode=mode, format=ext)
            if rq["wrong"] == "scale":
                kw["vmin"] = 0.0
            mf.Figure.savefig = save
            try:
                self.P.plot_uvdata_waterfalls(uvd if rq["wrong"] != "object" else "uvd", base, **kw)
            finally:
                mf.Figure.savefig = keep
            if not a["ok"]:
                return False
            want = {}
            for b, p in a["out"]:
                bl, pol = bls[b - 1], pols[p - 1]
                f = {"data": uvd.get_data, "flags": uvd.get_flags, "nsamples": uvd.get_nsamples}[rq["what"]](bl + (pol,))
                with np.errstate(all="ignore"):
                    f = {"log": lambda v: np.log10(np.abs(v)), "abs": np.abs, "phs": np.angle, "real": np.real}[mode](f).astype(float)
                want[f"{d}/a.b/w.{pol}.{bl[0]}.{bl[1]}.{ext or 'png'}"] = f
            # directions on the sky or feeds
            sky = lambda n: re.sub(r"/w\.([en]{2})\.", lambda m: "/w." + m[1].translate({101: "x", 110: "y"}) + ".", n)
            saved = {sky(n): x for n, x in saved.items()}
            if set(saved) != set(want):
                raise Bad(f"files {sorted(x[len(d):] for x in saved)}, specified {sorted(x[len(d):] for x in want)}")
            for n, f in want.items():
                imgs = saved[n]
                if len(imgs) != 1 or not any(same(im, f) for im in imgs[0]):
                    raise Bad(f"file {n[len(d):]} ({mode} of {rq['what']}) was stored {len(imgs)} times or shows something else")
                if sum(1 for im in imgs[0] if im.shape == f.shape) != 1:
                    raise Bad(f"file {n[len(d):]} shows several images")
        if self.V.state(uvd) != before:
            raise Bad("plotting changed the data")
        self.count("files", len(want))
        return True

    def run(self, traces):
        for tr in traces:
            for i, a in enumerate(tr):
                try:
                    if a["op"] == "make":
                        self.make(a)
                        continue
                    ok = "ok" in a and a["ok"]
                    try:
                        got = getattr(self, a["op"])(a)
                        if got is False:
                            raise Bad("accepted, but it must be refused")
                    except Bad:
                        raise
                    except Exception as exc:
                        if ok:
                            raise Bad(f"refused: {type(exc).__name__}: {exc}") from exc
                        self.count("refused")
                    if digest(self.u) != self.before:
                        raise Bad("the object was changed")
                except Bad as exc:
                    self.viol.append(dict(clause=a["op"], key=a["op"], replay=tr[max(0, i - 5): i + 1],
                                          detail=str(exc)[:1000] + f" | {a.get('req')} of { {k: v for k, v in self.o.items() if k != 'blank'} }"))
                    break
                finally:
                    self.plt.close("all")
            self.count("behaviours")
            if len(self.viol) > 10:
                break
        return dict(violations=self.viol, counts=self.counts, samples=[[a["op"] for a in tr] for tr in traces[:1]])


def work(item):
    seed, traces = item
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Replay(seed).run(traces)


def run(chk):
    traces = core.simulate_traces(chk, "Plots", {}, 2400 if chk.thorough else 320, 12)
    for res in core.pmap(work, [(chk.seed * 1000 + 41 * i, c) for i, c in enumerate(core.chunks(traces, 24))]):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
