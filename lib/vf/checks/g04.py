"""G04: the cross spectra configured from a set of visibility files.

FileSets.tla (on top of Redundant.tla) has visibility files come and go and asks for configurations: templates with
wildcards, exclusion patterns, polarization and group pairs, limits on the baselines.  It states which pairs of
polarizations and groups are configured and with which baseline pairs; its behaviours are replayed on real files."""
import contextlib
import io
import os
import shutil
import tempfile
import warnings

from .. import core
from . import g01
from .g01 import Bad, NA, T

PLACE = {"zen": "{d}/zen.{group}.{pol}.LST.{c}.uvh5", "abs": "{d}/abs.{pol}.{group}.LST.{c}.uvh5",
         "sub/day1": "{d}/sub/day1.x.{group}.LST.{c}.{pol}.uvh5"}
WILD = {"all": ["*"], "ones": ["1*"], "short": ["?", "[0-9]"], "two": ["2", "[!1]"], "one": ["1", "[1]"]}


class Replay(g01.Replay):
    def start(self, a, dirname):
        self.layout(a)
        self.dir = dirname
        os.makedirs(dirname + "/sub")
        self.kept = []
        for i, u in enumerate(self.uvds):
            p = f"{dirname}/kept{i}"
            u.write_uvh5(p, clobber=True, run_check=False)
            self.kept.append(p)
        self.there = set()

    def path(self, f):
        return PLACE[f[0]].format(d=self.dir, pol=f[1], group=f[2], c=f[3])

    def arrange(self, a):
        want = {tuple(f) for f in a["files"]}
        for f in self.there - want:
            os.unlink(self.path(f))
        for f in sorted(want - self.there):
            shutil.copyfile(self.kept[int(self.rng.integers(2))], self.path(f))
        self.there = want

    def pattern(self, p):
        k, v = p
        if k == "place":
            return ["/" + v + "."]
        if k == "chunk":
            return [f"LST.{v}."]
        if k == "tens":
            return ["LST.1"]
        if k == "both":
            return [f"{v}.xx.", f"xx.{v}.", f".{v}.LST.1.xx", f".{v}.LST.10.xx", f".{v}.LST.2.xx"]
        return [f".{v}."]

    def config(self, a):
        rng, kw = self.rng, self.limits(a["lim"])
        templates = []
        for t in a["templates"]:
            w = WILD[t["wild"]]
            templates.append(PLACE[t["place"]].replace("{d}", self.dir).replace("{c}", w[int(rng.integers(len(w)))]))
        if len(templates) == 1 and rng.random() < 0.5:
            templates = templates[0]
        if a["exclude"]:
            kw["exclude_patterns"] = [x for p in a["exclude"] for x in self.pattern(p)]
        if a["autos"]:
            kw["include_autocorrs"] = True
        o = a["o"]
        if o["noautos"] or rng.random() < 0.3:
            kw["exclude_auto_bls"] = o["noautos"]
        if not o["noperm"] or rng.random() < 0.3:
            kw["exclude_permutations"] = o["noperm"]
        if a["hasgiven"]:
            kw["xants"] = [self.num[i] for i in a["given"]]
        pols = [tuple(w["pols"]) for w in a["want"]]
        grps = [tuple(w["grps"]) for w in a["want"]]
        if rng.random() < 0.3:
            pols, grps = [list(x) for x in pols], [list(x) for x in grps]
        told = (repr(templates), repr(pols), repr(grps), repr(kw))
        try:
            res = self.hp.utils.config_pspec_blpairs(templates, pols, grps, file_type="uvh5", verbose=bool(rng.random() < 0.3), **kw)
        except Exception as exc:
            if not a["matched"]:
                self.count("no files")
                return
            raise Bad(f"{type(exc).__name__}: {str(exc)[:300]} with the files {sorted(self.there)[:6]}")
        if told != (repr(templates), repr(pols), repr(grps), repr(kw)):
            raise Bad("the arguments were changed")
        want = {(tuple(w["grps"]), tuple(w["pols"])) for w in a["keys"]}
        got = set(res.keys()) if len(res) else set()
        self.count("pairs of polarizations and groups", len(want))
        if got != want:
            raise Bad(f"configured {sorted(got)}, specified {sorted(want)}; files {sorted(self.there)[:8]}")
        for k in sorted(got):
            self.members(a, [[x] for x in self.tuples(res[k])])

    def tuples(self, blps):
        self.unique([T([list(p), list(q)]) for p, q in blps], "baseline pairs")
        return [(tuple(int(i) for i in p), tuple(int(i) for i in q)) for p, q in blps]

    def run(self, traces):
        for tr in traces:
            self.seed += 1 if self.seed % 4 != 1 else 2  # not the array of small baselines: the tolerance is fixed
            base = tempfile.mkdtemp(prefix="g04-")
            try:
                self.start(tr[0], base + "/s")
                for a in tr[1:]:
                    self.count(a["op"])
                    try:
                        getattr(self, a["op"])(a)
                    except Bad as exc:
                        show = {k: v for k, v in a.items() if k not in ("groups", "files")}
                        self.viol.append(dict(clause=a["op"], detail=str(exc)[:1500] + f" | {show}", replay=[tr[0], a], key=a["op"]))
                        break
            finally:
                shutil.rmtree(base)
            if len(self.viol) > 10:
                break
        return dict(violations=self.viol, counts=self.counts, samples=[[a["op"] for a in tr] for tr in traces[:1]])


def work(item):
    seed, traces = item
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Replay(seed).run(traces)


def run(chk):
    import hera_pspec  # noqa: F401
    const = dict(NA=str(NA), Cols="4", Rows="3")
    traces = core.simulate_traces(chk, "FileSets", const, 2400 if chk.thorough else 320, 9)
    items = [(chk.seed * 1000 + 41 * i, c) for i, c in enumerate(core.chunks(traces, 32))]
    for res in core.pmap(work, items):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
