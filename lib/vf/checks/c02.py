"""C02: combine_psc_spectra against specs/Merge.tla."""
import contextlib
import io
import os
import random
import shutil
import tempfile

from .. import core

ROW = {1: (0, 0), 2: (1, 1), 3: (2, 2), 4: (1, 4)}


def obj(cells, alien, pols=(0,)):
    from .. import uvp
    return uvp.build(abstract(cells, alien, pols), history="cells %s;" % sorted(cells))


def abstract(cells, alien, pols=(0,)):
    """cell 3 marks an object whose fixed metadata differ: variant of uvp.STATIC, or 0 for a folded one"""
    from .. import uvp
    odd = 3 in cells
    return uvp.Obj([4], [ROW[c] for c in cells], list(pols), src=3, stats=("err",), static=alien if odd else 0,
                   folded=odd and alien == 0)


ALIENS = range(0, 10)


def text(n):
    return "_".join(n)


class R:
    def __init__(self, seed):
        from hera_pspec import container
        from .. import uvp
        self.C, self.uvp = container, uvp
        self.rng = random.Random(seed)
        self.viol, self.counts = [], {"merges replayed": 0, "entries compared": 0}
        self.samples = []

    def content(self, state):
        return {(r["g"], text(r["n"])): frozenset(r["c"]) for r in state}

    def case(self, f, steps):
        d = tempfile.mkdtemp(prefix="c02_")
        path = os.path.join(d, "c.h5")
        keep = self.rng.random() < 0.6
        alien = self.rng.choice(ALIENS)
        self.alien = alien
        done = []
        psc = None
        try:
            psc = self.C.PSpecContainer(path, mode="rw", keep_open=keep)
            objs = {}
            for k, cells in sorted(self.content(f).items()):
                objs[k] = obj(cells, alien)
                psc.set_pspec(k[0], k[1], objs[k])
            before = self.content(f)
            for a, t in steps:
                done.append(a)
                self.counts["merges replayed"] += 1
                target = path if (not keep and self.rng.random() < 0.5) else psc
                err = None
                try:
                    self.C.combine_psc_spectra(target, groups=list(a["gs"]) or None,
                                               dset_split_str="_x_" if a["m"] == "x" else self.rng.choice([None, ""]),
                                               ext_split_str="_", overwrite=a["ow"], verbose=False,
                                               merge_history=self.rng.random() < 0.5)
                except Exception as exc:
                    err = exc
                if (err is None) != a["ok"]:
                    return self.fail("outcome", f, done, f"{type(err).__name__}: {err}" if err else "accepted")
                after = self.content(t)
                msg = self.compare(psc, after)
                if msg:
                    clause = "bystander" if msg[0] in before and before[msg[0]] == after.get(msg[0]) else "merged"
                    return self.fail(clause, f, done, msg[1])
                before = after
        finally:
            if psc is not None and psc.data is not None:
                psc.data.close()
            shutil.rmtree(d, ignore_errors=True)

    def compare(self, psc, want):
        tree = psc.tree(return_str=False)
        got = sorted((g, n) for g in tree for n in tree[g])
        if got != sorted(want):
            k = sorted(set(got) ^ set(want))[0]
            return k, f"entries {got}, expected {sorted(want)}"
        for k, cells in want.items():
            self.counts["entries compared"] += 1
            u = psc.get_pspec(*k)
            bad = self.uvp.diff(u, abstract(cells, self.alien))
            if bad:
                return k, f"{k}: {bad[:3]}"
        return None

    def fail(self, clause, f, done, msg):
        self.viol.append(dict(clause=clause, key=clause, detail=f"{msg} | initially {self.content(f)} | {done}",
                              replay=dict(initial=f, merges=done, metadata=self.alien)))


def work(item):
    seed, cases = item
    r = R(seed)
    with contextlib.redirect_stdout(io.StringIO()):
        for f, steps in cases:
            r.case(f, steps)
            if len(r.viol) >= 5:
                break
    return dict(violations=r.viol, counts=r.counts, samples=[dict(initial=cases[0][0], merges=[a for a, _ in cases[0][1]])])


CONFS = {
    "prefixes": dict(Groups='{"g"}',
                     Names='{<<"d1","x","d2">>,<<"d1","x","d2","a">>,<<"d1","x","d2","b">>,<<"d1","x","d22","a">>,'
                           '<<"dd1","x","d2">>}', Contents="{{1},{2},{3}}"),
    "plain-names": dict(Groups='{"g"}',
                        Names='{<<"uvp","a">>,<<"uvp","1">>,<<"uvp">>,<<"uvp1","a">>,<<"uv","a">>}',
                        Contents="{{1},{2},{1,2}}"),
    "groups": dict(Groups='{"g","gg"}', Names='{<<"d1","x","d1","a">>,<<"d1","x","d1","b">>,<<"d1","x","d11">>}',
                   Contents="{{1},{2}}"),
    "three-way": dict(Groups='{"g"}',
                      Names='{<<"d1","x","d2","a">>,<<"d1","x","d2","ab">>,<<"d1","x","d2","a","b">>,'
                            '<<"d2","x","d1","a">>,<<"e","d1","x","d2">>}', Contents="{{1},{2},{4}}"),
}


def run(chk):
    import hera_pspec  # noqa: F401
    from .. import uvp  # noqa: F401
    for name, c in CONFS.items():
        r = core.run_tlc("Merge", "Merge.cfg", dict(Alien="{3}", Emit="TRUE", **c))
        chk.add_tlc(r, name)
        edges, state = {}, {}
        for x in r.records:
            k = core.sid(x["f"])
            state[k] = x["f"]
            edges.setdefault(k, {})[core.sid(x["a"])] = (x["a"], x["t"])
        share = 1.0 if chk.thorough else min(1.0, 500 / sum(len(e) for e in edges.values()))
        cases = []
        for k in sorted(edges):
            for ak in sorted(edges[k]):
                if chk.rng.random() > share:
                    continue
                a, t = edges[k][ak]
                steps = [(a, t)]
                nxt = edges.get(core.sid(t))
                if nxt:
                    steps.append(nxt[chk.rng.choice(sorted(nxt))])
                cases.append((state[k], steps))
        chk.rng.shuffle(cases)
        items = [(chk.seed * 7000 + i, cs) for i, cs in enumerate(core.chunks(cases, 32))]
        for res in core.pmap(work, items):
            chk.merge(res["violations"], res["counts"], res["samples"])
        chk.traces(len(cases))
    chk.assumptions += ["data-set labels do not contain the extension separator (documented naming convention)"]
