"""D06: data sets enter an analysis as they were given, and those that do not fit together are refused.

Behaviours of Fit.tla enter data sets that differ in times, channels, channel widths, phasing or polarizations, in all the forms
there are, and ask whether they fit: of the validation itself, and of the estimations that need them to.  The specification says
what is refused and what is warned of."""
import contextlib
import io
import logging
import warnings

import numpy as np

from .. import core

BLS = [(0, 1), (1, 2)]
POLN = {"xx": -5, "yy": -6, "xy": -7, "yx": -8}
REFUSALS = (ValueError, TypeError, AssertionError, KeyError)


class Bad(Exception):
    pass


class Replay:
    def __init__(self, seed):
        import hera_pspec as hp
        from .. import uvd
        self.hp, self.V, self.seed = hp, uvd, seed
        self.viol, self.counts = [], {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def make(self, s, seed, **kw):
        pols = [p for i, p in enumerate(POLN) if i + 1 in s["pols"]]
        if seed % 2:
            pols = pols[::-1]
        u = self.V.build(bls=BLS, pols=pols, ntimes=s["nt"], nfreq=s["nf"], t0=s["t0"], df=[1e5, 1.0000002e5, 1.01e5][s["df"]],
                         freq0=120e6 + 600.0 * s["f0"], seed=seed, order=["bl", None][seed // 2 % 2], **kw)
        if s["ph"] != "drift":
            (k,) = u.phase_center_catalog
            u.phase_center_catalog[k]["cat_type"] = "sidereal"
        if s["ph"] == "two":
            u.phase_center_catalog[k + 1] = dict(u.phase_center_catalog[k], cat_name="another")
        return u

    def start(self):
        self.rng = np.random.default_rng(self.seed)
        self.ds = self.hp.PSpecData()
        self.held = []  # [data, weights, errors] entered
        self.specs = []

    # ------------------------------------------------------------------ entering
    def add(self, a):
        sets = a["sets"]
        n = len(sets)
        sd = int(self.rng.integers(1, 10**6))
        dsets = [self.make(s, sd + 7 * i) for i, s in enumerate(sets)]
        wgts = [self.make(s, sd + 7 * i + 2, binary=True) if w and a["no"] != "wgts" else None for i, (s, w) in enumerate(zip(sets, a["wgts"]))]
        stds = [self.make(s, sd + 7 * i + 4) if w and a["no"] != "std" else None for i, (s, w) in enumerate(zip(sets, a["std"]))]
        labels = list(a["labels"]) or None
        new = list(zip(dsets, wgts, stds))
        before = [self.V.state(x) for t in new for x in t if x is not None]
        kw = {}
        form, wrong = a["form"], a["wrong"]
        gd, gw, gs = list(dsets), list(wgts), list(stds)
        if wrong == "wgts":
            gw = gw[:-1] if n > 1 and self.rng.random() < 0.5 else gw + [None]
        elif wrong == "std":
            gs = gs[:-1] if n > 1 and self.rng.random() < 0.5 else gs + [None]
        elif wrong == "labels":
            labels = labels[:-1] if n > 1 and self.rng.random() < 0.5 else labels + ["z"]
        elif wrong == "kind":
            gd[-1] = "data.uvh5"
        elif wrong == "wkind":
            gw[0] = 1.0
        elif wrong == "skind":
            gs[-1] = np.ones(3)
        elif wrong == "single":
            gd = 5
        elif wrong == "cals":
            kw["cals"] = [None] * (n + 1)
        if form == "one":
            gd, gw, gs = gd[0], gw[0], gs[0]
            if labels is not None:
                labels = labels[0] if self.rng.random() < 0.5 else labels
        elif form == "tuple":
            gd, gw, gs = (tuple(x) if isinstance(x, list) else x for x in (gd, gw, gs))
        elif form == "dict":
            order = self.rng.permutation(n)
            gd = dict(zip(labels, gd))
            gw, gs = ({labels[i]: x[i] for i in order} for x in (gw, gs))
            asked, labels = labels, None
        if a["no"] == "wgts" and form in ("dict", "one"):
            gw = None
        if a["no"] == "std" and wrong != "skind" and wrong != "std":
            gs = None
        if form != "dict":
            asked = None if labels is None else [labels] if isinstance(labels, str) else list(labels)
            kw["labels"] = labels
        if a["fresh"]:
            self.ds, self.held, self.specs = self.hp.PSpecData(), [], []
        old = list(self.ds.labels or [])
        shown = (list(gd) if isinstance(gd, list) else None, None if not isinstance(labels, list) else list(labels))
        try:
            self.ds.add(gd, gw, dsets_std=gs, **kw)
            ok = True
        except REFUSALS as exc:
            ok, err = False, exc
        if ok != (not wrong):
            raise Bad("accepted" if ok else f"{type(err).__name__}: {str(err)[:300]}")
        if [self.V.state(x) for t in new for x in t if x is not None] != before:
            raise Bad("a data set of the caller was changed")
        if shown[0] is not None and not (len(gd) == len(shown[0]) and all(x is y for x, y in zip(gd, shown[0]))):
            raise Bad("the list given was changed")
        if shown[1] is not None and labels != shown[1]:
            raise Bad(f"the labels given were changed: {labels}, were {shown[1]}")
        if ok:
            self.held += new
            self.specs += sets
            names = list(self.ds.labels)
            if len(names) != len(self.held):
                raise Bad(f"labels {names} of {len(self.held)} data sets")
            if names[:len(old)] != old:
                raise Bad(f"labels {old} became {names}")
            if len(set(names)) != len(names):
                raise Bad(f"labels {names} are not unique")
            for i in range(len(old), len(names)):
                want = asked[i - len(old)] if asked else f"dset{i}"
                if names[i] != want and (want not in names[:i] or not str(names[i]).startswith(want)):
                    raise Bad(f"label {i} is {names[i]}, asked for {want}; labels before: {old}")
        if len(self.held) != a["count"]:
            raise core.MachineryError(f"{len(self.held)} data sets, specified {a['count']}")
        self.intact()

    def intact(self):
        ds = self.ds
        if not (len(ds.dsets) == len(ds.wgts) == len(ds.dsets_std) == len(self.held)):
            raise Bad(f"{len(ds.dsets)} data sets, {len(ds.wgts)} weights, {len(ds.dsets_std)} errors; {len(self.held)} entered")
        for i, t in enumerate(self.held):
            for got, want, what in zip((ds.dsets[i], ds.wgts[i], ds.dsets_std[i]), t, ("data", "weights", "errors")):
                if (got is None) != (want is None) or (got is not None and got is not want and self.V.state(got) != self.V.state(want)):
                    raise Bad(f"{what} of data set {i} ({ds.labels[i]}) are not those entered")
        for i, l in enumerate(ds.labels or []):
            if ds.dset_idx(l) != i or ds.dset_idx(i) != i:
                raise Bad(f"label {l} means data set {ds.dset_idx(l)}, not {i}")

    # ------------------------------------------------------------------ asking
    def ask(self, via, pair=(0, 0), quiet=False):
        """(fits, what was said)"""
        ds = self.ds
        out, log = io.StringIO(), io.StringIO()
        h = logging.StreamHandler(log)
        logging.getLogger("hera_pspec").addHandler(h)
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                try:
                    if via == "validate":
                        ds.validate_datasets(verbose=False) if quiet else ds.validate_datasets()
                    elif via == "pspec":
                        ds.pspec([(0, 1)], [(0, 1)], pair, [("xx", "xx")], spw_ranges=[(0, 4)], taper="none", verbose=not quiet)
                    elif via == "broadcast":
                        ds.broadcast_dset_flags(spw_ranges=[(0, 4)])
                    elif via == "rephase":
                        ds.rephase_to_dset(pair[0], inplace=False)
                    return True, None, out.getvalue() + log.getvalue() + " ".join(str(w.message) for w in rec)
                except ValueError as exc:
                    return False, str(exc)[:200], out.getvalue()
        finally:
            logging.getLogger("hera_pspec").removeHandler(h)

    def check(self, a):
        via = a["via"]
        if via == "rephase" and a["ok"]:
            via = "validate"  # what it does to data that fit is another matter
        before = [self.V.state(x) for t in self.held for x in t if x is not None]
        ok, err, said = self.ask(via, tuple(a["pair"]), a["quiet"])
        self.count(f"{via} {'fit' if a['ok'] else 'refused'}")
        if ok != a["ok"]:
            raise Bad(f"{via}: {'accepted' if ok else 'refused: ' + err}")
        if ok and via == "validate":
            low = said.lower()
            got = dict(late="lst" in low and "misalign" in low, detuned="frequenc" in low and "misalign" in low)
            for k in got:
                want = a[k] and not a["quiet"]
                if got[k] != want:
                    raise Bad(f"validate: {'a' if got[k] else 'no'} warning of {k} data sets: {said[:200]!r}")
                self.count(f"{k} {want}")
        if not ok or via != "broadcast":
            if [self.V.state(x) for t in self.held for x in t if x is not None] != before:
                raise Bad(f"{via}: the data sets were changed")
        self.intact()

    def spoilt(self, a):
        lst = getattr(self.ds, a["what"])
        keep = list(lst)
        if a["more"] or not lst:
            lst.append("zz" if a["what"] == "labels" else None)
        else:
            lst.pop()
        ok, err, said = self.ask(a["via"])
        lst[:] = keep
        if ok:
            raise Bad(f"{a['via']} accepts {'more' if a['more'] else 'fewer'} {a['what']} than data sets")
        self.intact()

    def pol(self, a):
        pair = [p if f == "str" else POLN[p] for p, f in zip(a["pols"], a["as"])]
        if a["form"] == "float":
            pair[1] = -5.0
        sets = tuple(self.ds.labels[i - 1] if nm else i - 1 for i, nm in zip(a["sets"], a["named"]))
        try:
            got = self.ds.validate_pol(sets if self.rng.random() < 0.5 else list(sets), pair if a["form"] == "list" else tuple(pair))
        except (AssertionError, TypeError, ValueError):
            got = None
        want = a["yes"] if a["form"] == "tuple" else None
        if got is None or want is None:
            if got is not want:
                raise Bad(f"polarization pair {pair} of data sets {sets}: {got}, specified {want}")
        elif bool(got) != want:
            raise Bad(f"polarization pair {pair} of data sets {sets}: {got}")
        self.intact()

    def spectra(self, a):
        """those of the requested polarization pairs that both data sets have"""
        pols = [tuple(p if a["as"] == "str" else POLN[p] for p in q) for q in a["pols"]]
        i, j = (x - 1 for x in a["pair"])
        want = [tuple(POLN[p] for p in q) for q, h in zip(a["pols"], a["has"]) if h]
        if not want and a["ok"]:
            return
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                u = self.ds.pspec([(0, 1), (1, 2)], [(1, 2), (0, 1)], (i, j), pols, spw_ranges=[(0, 4)], taper="none", verbose=False)
        except ValueError as exc:
            if a["ok"]:
                raise Bad(f"spectra of {a['pols']} of data sets {i}, {j}: {exc}")
            return
        if not a["ok"]:
            raise Bad("spectra of data sets that do not fit")
        got = [tuple(int(x) for x in self.hp.uvpspec_utils.polpair_int2tuple(p)) for p in u.polpair_array]
        if got != want:
            raise Bad(f"spectra of {got}, specified {want}")
        self.count("spectra left out" if len(want) < len(pols) else "spectra of all")
        for n, q in enumerate(want):
            one = self.ds.pspec([(0, 1), (1, 2)], [(1, 2), (0, 1)], (i, j), [q], spw_ranges=[(0, 4)], taper="none", verbose=False) if n else None
            if one is not None and not np.allclose(u.data_array[0][:, :, n], one.data_array[0][:, :, 0], rtol=1e-9, atol=0):
                raise Bad(f"the spectrum of {q} depends on the other pairs asked for")
        self.intact()

    def key(self, a):
        p = POLN[a["pol"]] if a["num"] else a["pol"]
        key = {"pol": (p,), "bl": tuple(a["bl"]), "blpol": tuple(a["bl"]) + (p,), "four": tuple(a["bl"]) + (p, 0)}[a["kind"]]
        if a["kind"] == "pol" and a["bare"]:
            key = p
        try:
            got = self.ds.check_key_in_dset(key, a["set"] - 1)
        except KeyError:
            got = None
        want = a["yes"] if a["kind"] != "four" else None
        if (got is None) != (want is None) or (want is not None and bool(got) != want):
            raise Bad(f"key {key} in data set {a['set'] - 1}: {got}, specified {want}")

    def run(self, traces):
        for tr in traces:
            self.seed += 1
            self.start()
            done = []
            for a in tr:
                op, a = a["op"], a["a"]
                done.append(dict(op=op, **a))
                self.count(op)
                try:
                    getattr(self, op)(a)
                except Bad as exc:
                    self.viol.append(dict(clause=op, detail=str(exc)[:800] + f" | {a}", replay=done[-6:], key=op))
                    break
            if len(self.viol) > 10:
                break
        return dict(violations=self.viol, counts=self.counts, samples=[[a["op"] for a in tr] for tr in traces[:1]])


def work(item):
    seed, traces = item
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Replay(seed).run(traces)


def run(chk):
    import hera_pspec  # noqa: F401
    traces = core.simulate_traces(chk, "Fit", {}, 4000 if chk.thorough else 400, 16)
    for res in core.pmap(work, [(chk.seed * 1000 + 43 * i, c) for i, c in enumerate(core.chunks(traces, 24))]):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
