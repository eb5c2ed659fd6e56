"""A01: command lines hand over what is written.

Behaviours of Command.tla write command lines and run them.  The scripts of the repository are run here as programs, within
the process; the function a script hands over to is replaced by one that records its arguments, bound to the parameters of
the original.  The specification says which argument every parameter gets, which lines are refused, which polarizations a
file has afterwards, which spectra of a container get noise errors, and what a configuration file becomes."""
import ast
import contextlib
import copy
import inspect
import io
import os
import random
import runpy
import sys
import tempfile
import tracemalloc
import warnings

import numpy as np

from .. import core

WORDS = ["foo", "bar", "a.b_x_c", "I", "xx", "pI", "dir/file.h5", "grp1/ps_x_2", "none", "blackman-harris", "V^-1/2", "_", "_ext_", "_x"]
POL = ["xx", "yy", "pI", "pQ", "XX", "pV", "xy", "yx"]


class Bad(Exception):
    pass


class Called(Exception):
    pass


def scripts():
    import hera_pspec
    return os.path.join(os.path.dirname(os.path.abspath(hera_pspec.__file__)), "..", "..", "scripts")


SCRIPT = {"pspec": "pspec_run.py", "boot": "bootstrap_run.py", "merge": "psc_merge_spectra.py"}


# -------------------------------------------------------------------- values
def number(kind, x):
    if kind in ("float", "floats", "range", "cosmo"):
        return x / 8
    return int(x)


def texts(o):
    """the words written after the option"""
    k, v, f = o["kind"], o["v"], o["form"]
    if k in ("flag", "noflag"):
        return []
    if k == "bool":
        return [("True" if v[0][0] % 2 else "False")]
    if k == "str":
        return [WORDS[v[0][0] % len(WORDS)]]
    if k == "strs":
        return [WORDS[x[0] % len(WORDS)] for x in v]
    if k in ("int", "ints", "float", "floats", "range", "cosmo"):
        return [str(number(k, x[0])) for x in v]
    if k == "groups":
        return [",".join(" ".join(str(blp(y)) for y in x) for x in v)]
    one = (lambda y: POL[y % len(POL)]) if k == "spairs" else str
    return [("," if f == "tilde" else ", ").join(("~" if f == "tilde" else " ").join(one(y) for y in x) for x in v)]


def blp(y):
    return (101 + y) * 10**9 + 102 * 10**6 + (103 + y % 3) * 1000 + 104


def meant(a):
    """the argument meant"""
    k, v = a["kind"], a["v"]
    if k == "default":
        return ast.literal_eval(a["def"])
    if k in ("flag", "noflag"):
        return k == "flag"
    if k == "bool":
        return v[0][0] % 2 == 1
    if k in ("int", "float"):
        return number(k, v[0][0])
    if k in ("ints", "floats", "range", "cosmo"):
        return [number(k, x[0]) for x in v]
    if k == "str":
        return WORDS[v[0][0] % len(WORDS)]
    if k == "strs":
        return [WORDS[x[0] % len(WORDS)] for x in v]
    if k == "groups":
        return [[blp(y) for y in x] for x in v]
    if k == "spairs":
        return [tuple(POL[y % len(POL)] for y in x) for x in v]
    if k == "quads":
        return [(tuple(x[:2]), tuple(x[2:])) for x in v]
    return [tuple(x) for x in v]


def plain(x):
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, np.generic):
        x = x.item()
    return x


def agree(got, want, kind):
    got = plain(got)
    if kind in ("range", "default") and isinstance(want, (list, tuple)) and isinstance(got, (list, tuple)):
        return [float(x) for x in got] == [float(x) for x in want]
    if kind == "cosmo":
        names = ("Om_L", "Om_b", "Om_c", "H0", "Om_M", "Om_k")
        from hera_pspec.conversions import Cosmo_Conversions
        want = Cosmo_Conversions(**dict(zip(names, want)))
        return all(hasattr(got, n) and np.isclose(getattr(got, n), getattr(want, n), rtol=1e-9) for n in names)
    if isinstance(want, bool) or want is None or isinstance(got, bool):
        return type(got) is type(want) and got == want
    if isinstance(want, list) and isinstance(got, (list, tuple)):
        # a list of tuples, or of lists, is one whichever it is made of, except where tuples are promised
        if kind in ("pairs", "spairs", "quads"):
            return list(got) == want
        return deep(got) == deep(want)
    return type(got) in (type(want), float) and got == want


def deep(x):
    return [deep(y) for y in x] if isinstance(x, (list, tuple)) else plain(x)


class Replay:
    def __init__(self, seed):
        import hera_pspec as hp
        from hera_pspec import container, grouping, pspecdata, pstokes, utils
        self.hp, self.C, self.G, self.P, self.S, self.T = hp, container, grouping, pspecdata, pstokes, utils
        self.seed = seed
        self.viol, self.counts = [], {}
        self.target = {"pspec": (pspecdata, "pspec_run"), "boot": (grouping, "bootstrap_run"), "merge": (container, "combine_psc_spectra")}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ---------------------------------------------------------------- programs
    def program(self, script, argv):
        """run a script; returns (outcome, text printed)"""
        old, cwd = sys.argv, os.getcwd()
        out = io.StringIO()
        sys.argv = [script] + list(argv)
        import logging
        level, handlers = logging.root.level, list(logging.root.handlers)
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                os.chdir(self.dir)
                runpy.run_path(os.path.join(scripts(), script), run_name="__main__")
            return None, out.getvalue()
        except SystemExit as exc:
            return (None if exc.code in (0, None) else exc), out.getvalue()
        except Exception as exc:
            return exc, out.getvalue()
        finally:
            sys.argv = old
            os.chdir(cwd)
            if tracemalloc.is_tracing():
                tracemalloc.stop()
            logging.root.setLevel(level)
            logging.root.handlers[:] = handlers

    def words(self, line):
        w = []
        for o in line:
            w.append("--" + o["name"])
            w += texts(o)
        return w

    def inputs(self, tool, n):
        name = self.rng.choice(["out.h5", "data/ps.h5", "psc", "x_y.pspec.h5"])
        self.name = name
        if tool != "pspec":
            return [name], []
        ds = [self.rng.choice(["zen.{}.uvh5", "a/b{}.uv", "{}"]).format(i) for i in range(n)]
        return ds + [name], ds

    def recorded(self, tool, argv, script=None):
        mod, fn = self.target[tool]
        real = getattr(mod, fn)
        sig = inspect.signature(real)
        calls = []

        def stub(*args, **kwargs):
            b = sig.bind(*args, **kwargs)
            b.apply_defaults()
            calls.append(copy.deepcopy(b.arguments))

        stub.__name__, stub.__signature__ = fn, sig
        setattr(mod, fn, stub)
        try:
            exc, text = self.program(SCRIPT[tool], argv)
        finally:
            setattr(mod, fn, real)
        return calls, exc, text

    def call(self, a):
        tool = a["tool"]
        pos, ds = self.inputs(tool, a["inputs"])
        w = self.words(a["line"])
        # positional arguments come first; or last, if the option before them takes no list
        if a["at"] == "end" and a["line"] and not a["line"][-1]["many"] and tool != "pspec":
            argv = w + pos
        else:
            argv = pos + w
        if a["log"]:
            argv = argv + {"level": ["--log-level", "WARNING"], "plain": ["--log-absolute-time", "--log-width", "100"]}[a["log"]]
        calls, exc, text = self.recorded(tool, argv)
        shown = " ".join(argv)
        if exc is not None:
            raise Bad(f"{SCRIPT[tool]} {shown}: {type(exc).__name__}: {exc} {text[-200:] if isinstance(exc, SystemExit) else ''}")
        if len(calls) != 1:
            raise Bad(f"{SCRIPT[tool]} {shown}: called {len(calls)} times")
        got = calls[0]
        first = got["psc" if tool == "merge" else "filename"]
        if getattr(first, "filename", first) != self.name:
            raise Bad(f"{SCRIPT[tool]} {shown}: the container is {first}")
        if tool == "pspec":
            if list(got["dsets"]) != ds:
                raise Bad(f"{SCRIPT[tool]} {shown}: data sets {got['dsets']}, not {ds}")
            for x in argv:
                if x not in got["history"]:
                    raise Bad(f"{SCRIPT[tool]} {shown}: history {got['history']!r} misses {x!r}")
        bad = []
        for x in a["args"]:
            v = got[x["par"]]
            if not agree(v, meant(x), x["kind"]):
                bad.append(f"{x['par']} is {plain(v) if x['kind'] != 'cosmo' else repr(getattr(v, '__dict__', v))[:80]!r}, "
                           f"{'by default' if x['kind'] == 'default' else 'written'} {meant(x)!r}")
            self.count("arguments")
        if bad:
            raise Bad(f"{SCRIPT[tool]} {shown}: " + "; ".join(bad))
        self.count("calls of " + tool)

    def wrong(self, a):
        tool = a["tool"]
        pos, ds = self.inputs(tool, 1)
        w = self.words(a["line"])
        how = a["how"]
        if how == "unknown":
            w = w + ["--colour", "blue"]
        elif how == "word":
            w = w + ["--" + a["name"], "~" if self.rng.random() < 0.2 and a["kind"] != "groups" else "maybe"]
        elif how == "nothing":
            w = w + (["--" + a["name"]] if a["name"] else ["--nothing"])
        elif how == "short":
            pos = []
        else:
            if tool == "pspec":
                w = w + ["--verbose", "--overwrite=1"]
            else:
                pos = pos + ["surplus"]
        calls, exc, text = self.recorded(tool, pos + w)
        if calls or exc is None:
            raise Bad(f"{SCRIPT[tool]} {' '.join(pos + w)} ({how}): " + ("carried out" if calls else "silent"))
        self.count("refused lines")

    # ------------------------------------------------------------ visibilities
    def path(self, n):
        return os.path.join(self.dir, n + ".uvh5")

    def deposit(self, a):
        from .. import uvd
        d = uvd.build([(0, 1), (1, 2)], sorted(a["pols"]), 2, nfreq=3, seed=self.rng.randrange(10**6),
                      flags=lambda *x: self.rng.random() < 0.2)
        if os.path.exists(self.path(a["name"])):
            os.remove(self.path(a["name"]))
        d.write_uvh5(self.path(a["name"]))

    def read(self, n):
        from pyuvdata import UVData
        d = UVData()
        d.read(self.path(n))
        return d

    def pols(self, d):
        return {p if p[0] == "p" else p.replace("e", "x").replace("n", "y") for p in d.get_pols()}

    def cells(self, d, pol):
        from pyuvdata import utils as uvutils
        num = uvutils.polstr2num(pol)
        j = list(d.polarization_array).index(num)
        return {(int(x), int(y), round(float(t), 8)): (d.data_array[i, :, j], d.flag_array[i, :, j], d.nsample_array[i, :, j])
                for i, (x, y, t) in enumerate(zip(d.ant_1_array, d.ant_2_array, d.time_array))}

    def stokes(self, a):
        argv = [self.path(a["from"])]
        opts = []
        if a["asked"]:
            opts.append(["--pstokes"] + list(a["asked"]))
        if a["to"]:
            opts.append(["--outputdata", self.path(a["to"])])
        if a["keep"]:
            opts.append(["--keep_vispols"])
        if a["clobber"]:
            opts.append(["--clobber"])
        self.rng.shuffle(opts)
        argv += [x for o in opts for x in o]
        src = self.read(a["from"])
        old = {n: open(self.path(n), "rb").read() for n in "abc" if os.path.exists(self.path(n))}
        exc, text = self.program("generate_pstokes_run.py", argv)
        shown = " ".join(os.path.basename(x) for x in argv) + f" ({sorted(a['have'])})"
        to = a["to"] or a["from"]
        for n in "abc":
            if (n != to or not a["ok"]) and (open(self.path(n), "rb").read() if os.path.exists(self.path(n)) else None) != old.get(n):
                raise Bad(f"{shown}: file {n} has changed")
        if not a["ok"]:
            if exc is None:
                raise Bad(f"{shown}: not refused")
            self.count("refused pseudo-Stokes")
            return
        if exc is not None:
            raise Bad(f"{shown}: {type(exc).__name__}: {exc}")
        new = self.read(to)
        if self.pols(new) != set(a["pols"]):
            raise Bad(f"{shown}: polarizations {sorted(self.pols(new))}, not {sorted(a['pols'])}")
        for p in a["pols"]:
            w = self.cells(src if p in a["have"] and (a["keep"] or p not in a["asked"]) else self.S.construct_pstokes(src, src, pstokes=p), p)
            g = self.cells(new, p)
            if set(g) != set(w):
                raise Bad(f"{shown}: {p} has other baselines or times")
            for k in w:
                for x, y, what in zip(g[k], w[k], ("data", "flags", "samples")):
                    if not np.allclose(x, y, rtol=1e-6, atol=1e-9):
                        raise Bad(f"{shown}: {what} of {p} of {k} differ from the visibilities constructed")
        self.count("pseudo-Stokes files")

    # ------------------------------------------------------------------- noise
    def container(self):
        from .. import uvd, uvp
        if hasattr(self, "model"):
            return
        if not hasattr(self, "master"):
            d = uvd.build([], ["xx", "yy"], 3, nfreq=200, freq0=105e6, df=uvp.DF, autos=[1, 2, 3, 4], seed=3)
            jd = np.unique(d.time_array)
            ls = np.array([d.lst_array[d.time_array == t][0] for t in jd])
            d.data_array[:] = np.abs(d.data_array) * 10
            objs = []
            for k in range(6):
                ob = uvp.Obj([1], [(b, t) for b in (k % 4, 7) for t in (0, 4)], [k % 2], beam=True, src=k % 5)
                u = uvp.build(ob, cosmo=1)
                u.integration_array[0][:] = 5.0 + k
                u.nsample_array[0][:] = 1.0 + k % 3
                for w in (1, 2):
                    i = np.array([uvp.TP[t][w - 1] for b, t in ob.rowlist])
                    setattr(u, f"time_{w}_array", jd[i])
                    setattr(u, f"lst_{w}_array", ls[i])
                u.time_avg_array = 0.5 * (u.time_1_array + u.time_2_array)
                u.check()
                objs.append(u)
            Replay.master = objs, d
        self.U = uvp
        objs, d = self.master
        self.file = os.path.join(self.dir, "spectra.h5")
        self.autofile = os.path.join(self.dir, "autos.uvh5")
        d.write_uvh5(self.autofile, clobber=True)
        psc = self.C.PSpecContainer(self.file, mode="rw", keep_open=False, swmr=False)
        cells = [(g, s) for g in ("g1", "g2") for s in ("s1", "s2", "s1_x")]
        for (g, s), u in zip(cells, objs):
            psc.set_pspec(g, s, u)
        self.model = {c: psc.get_pspec(*c) for c in cells}
        self.autos = self.read("autos")

    def noise(self, a):
        self.container()
        opts = []
        if a["groups"]:
            g = list(a["groups"])
            self.rng.shuffle(g)
            opts.append(["--groups"] + g)
        if a["spectra"]:
            s = ["/".join(c) for c in a["spectra"]]
            self.rng.shuffle(s)
            opts.append(["--spectra"] + s)
        if a["err"]:
            opts.append(["--err_type"] + list(a["err"]))
        self.rng.shuffle(opts)
        argv = [self.file, self.autofile, "beam.fits"] + [x for o in opts for x in o]
        shown = " ".join(argv[3:])
        beams = []
        real = self.T.uvd_to_Tsys
        sig = inspect.signature(real)

        def stub(*args, **kwargs):
            b = sig.bind(*args, **kwargs)
            beams.append(b.arguments["beam"])
            if b.arguments["uvd"] != self.autos:
                raise Bad(f"auto_noise_run {shown}: other auto-correlations than in the file")
            return b.arguments["uvd"]

        error = self.T.uvp_noise_error
        esig = inspect.signature(error)

        def quick(*args, **kwargs):  # fewer steps of the integral over frequency, which takes less time
            b = esig.bind(*args, **kwargs)
            b.arguments["num_steps_scalar"] = 20
            return error(*b.args, **b.kwargs)

        self.T.uvd_to_Tsys, self.T.uvp_noise_error = stub, quick
        try:
            exc, text = self.program("auto_noise_run.py", argv)
        finally:
            self.T.uvd_to_Tsys, self.T.uvp_noise_error = real, error
        if exc is not None:
            raise exc if isinstance(exc, Bad) else Bad(f"auto_noise_run {shown}: {type(exc).__name__}: {exc}")
        if beams != ["beam.fits"]:
            raise Bad(f"auto_noise_run {shown}: beam {beams}")
        for c in a["done"]:
            with contextlib.redirect_stdout(io.StringIO()):
                quick(self.model[tuple(c)], self.autos, err_type=list(a["err"]) or "P_N")
        psc = self.C.PSpecContainer(self.file, mode="r", keep_open=False)
        marks = {tuple(c): set(m) for c, m in a["marks"]}
        if {(g, s) for g in psc.groups() for s in psc.spectra(g)} != set(self.model):
            raise Bad(f"auto_noise_run {shown}: the container holds {[(g, psc.spectra(g)) for g in psc.groups()]}")
        for c, m in self.model.items():
            u = psc.get_pspec(*c)
            have = set(getattr(u, "stats_array", {}))
            if have != marks[c]:
                raise Bad(f"auto_noise_run {shown}: {c} has errors {sorted(have)}, not {sorted(marks[c])}")
            dif = [x for x in self.U.delta(u, m) if x.split(" ")[0] != "stats_array"]
            for n in have:
                if set(u.stats_array[n]) != set(m.stats_array[n]) or any(not np.allclose(u.stats_array[n][k], m.stats_array[n][k], rtol=1e-9, equal_nan=True)
                                                                         for k in u.stats_array[n]):
                    dif.append(n)
            if dif:
                raise Bad(f"auto_noise_run {shown}: {c} differs in {dif}")
        self.count("noise runs")

    # ----------------------------------------------------------- configuration
    def entry(self, kind, n):
        """what is in the file, and what becomes of it"""
        v = {"none": "None", "int": n, "float": n / 4 + 0.125, "text": WORDS[n % len(WORDS)], "bool": n % 2 == 0, "null": None,
             "ints": [n, n + 1], "texts": ["a", "None " + str(n)], "pairs": [[n, 1], [2, n]], "quads": [["xx", "yy"], ["pI", "pI"], ["a", "b"]],
             "empty": [], "tuples1": [[n, n + 5, 7]]}[kind]
        return v

    def load(self, a):
        import yaml
        doc, want = {}, {}
        items = list(a["conf"])
        self.rng.shuffle(items)
        for path, kind, n, become in items:
            v = self.entry(kind, n)
            w = {"null": None, "same": v}.get(become) if become != "tuples" else [tuple(x) for x in v]
            for tree, x in ((doc, v), (want, w)):
                for q in path[:-1]:
                    tree = tree.setdefault(q, {})
                tree[path[-1]] = copy.deepcopy(x)
        f = os.path.join(self.dir, "conf.yaml")
        with open(f, "w") as h:
            yaml.safe_dump(doc, h, default_flow_style=self.rng.choice([None, True, False]), sort_keys=False)
        got = self.T.load_config(f)

        def same(x, y):
            if type(x) is not type(y):
                return False
            if isinstance(x, dict):
                return set(x) == set(y) and all(same(x[k], y[k]) for k in x)
            if isinstance(x, (list, tuple)):
                return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
            return x == y

        if not same(got, want):
            raise Bad(f"load_config gives {got}, the file means {want}")
        self.count("configurations")

    def run(self, traces):
        for n, tr in enumerate(traces):
            self.rng = random.Random(self.seed * 1000 + n)
            if hasattr(self, "model"):
                del self.model
            with tempfile.TemporaryDirectory(prefix="vf_a01_") as self.dir:
                done = []
                for a in tr:
                    op = a["op"]
                    if op in ("turn", "write", "swap", "erase", "compose", "note"):
                        continue
                    done.append({k: v for k, v in a.items() if k not in ("args", "marks")})
                    try:
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            getattr(self, op)(a)
                        self.count(op)
                    except Bad as exc:
                        self.viol.append(dict(clause=op, key=f"{op}:{a.get('tool', '')}", detail=str(exc)[:900], replay=dict(seed=self.seed, trace=n, last=done[-1])))
                        if op in ("stokes", "noise"):
                            break
        return self


def work(item):
    seed, traces = item
    r = Replay(seed).run(traces)
    return dict(violations=r.viol, counts=r.counts, samples=[])


def run(chk):
    import hera_cal._cli_tools  # noqa: F401
    import hera_pspec  # noqa: F401
    traces = core.simulate_traces(chk, "Command", {}, 4000 if chk.thorough else 400, 24)
    for res in core.pmap(work, [(chk.seed * 1000 + 41 * i, c) for i, c in enumerate(core.chunks(traces, 32))]):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
