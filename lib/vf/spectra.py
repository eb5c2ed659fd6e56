"""Replay of behaviours of specs/Spectra.tla on real UVPSpec objects and files."""
import contextlib
import copy
import io
import os
import random
import shutil
import tempfile

import numpy as np

from . import core

STYLES = ('{{},{"cov","err"},{"win","beam","noise_1_of_2","rpar"},{"exact","err","noise_1_of_2","beam"},'
          '{"cov","win","err","noise_1_of_2","beam"},{"noise_1_of_2","rpar","cov"}}')


def behaviours(chk, ops, num, depth, procs=4, styles=STYLES, name="Spectra", nreg=4, nfile=3, timeout=400):
    """Simulated behaviours of the specification, as lists of steps."""
    consts = dict(Spws="0..4", Blps="0..7", Tps="0..6", Pols="0..3", NReg=str(nreg), NFile=str(nfile),
                  Ops="<<" + ",".join(f'"{o}"' for o in ops) + ">>", Styles=styles)
    return core.simulate_traces(chk, "Spectra", consts, num, depth, procs, name, timeout)


def laws(chk, thorough):
    """The algebra of selection and combination, model-checked over a small universe."""
    r = core.run_tlc("SpectraLaws", "SpectraLaws.cfg", dict(Universe="2" if thorough else "1"), workers=8, timeout=600)
    chk.add_tlc(r, "SpectraLaws")


class Replay:
    def __init__(self, seed):
        from hera_pspec import container, uvpspec
        from . import uvp
        self.uvp, self.P, self.C = uvp, uvpspec, container
        self.rng = random.Random(seed)
        self.viol, self.counts, self.samples = [], {}, []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def obj(self, j):
        cells = [tuple(c) for c in j["cells"]]
        src = {c[:4]: c[4] for c in cells}
        win = {"no": None, "plain": "plain", "exact": "exact"}[j["win"]]
        return self.uvp.Obj(j["spws"], {(c[1], c[2]) for c in cells}, {c[3] for c in cells},
                            src=lambda s, b, t, p: src[(s, b, t, p)], stats=sorted(j["stats"]), cov=j["cov"], win=win,
                            beam=j["beam"], meta=j["meta"], folded=j["folded"], static=j["static"], rpar=j["rpar"],
                            dsq=j["dsq"], cosmo=j["cosmo"], scal=j["scal"])

    def construct(self, o):
        o.rowlist = sorted(o.rows)
        o.polarr = sorted(o.pols)
        self.rng.shuffle(o.rowlist)
        self.rng.shuffle(o.polarr)
        if self.rng.random() < 0.3:
            o.rowlist.sort(key=lambda r: (r[1], r[0]))
        return self.uvp.build(o, history=f"made {self.rng.random()};")

    def criteria(self, k, u, spws):
        """keyword arguments for the real selection, in one of the accepted forms"""
        U, rng, kw = self.uvp, self.rng, {}
        if k["spws"] != [-1]:
            ids = list(k["spws"])
            rng.shuffle(ids)
            if all(s in spws for s in ids) and rng.random() < 0.5:
                kw["spws"] = [spws.index(s) for s in ids]
            else:
                kw["spws"] = [self.range_of(s, u) for s in ids]
        if k["bls"]:
            bls = {1: (1, 2), 2: (2, 3), 3: (3, 4), 4: (1, 3), 5: (2, 4)}
            kw["bls"] = [bls[b] if rng.random() < 0.5 or True else 0 for b in k["bls"]]
            if rng.random() < 0.5:
                kw["bls"] = [U.bl_int(b) for b in kw["bls"]]
            kw["only_pairs_in_bls"] = k["both"]
        if k["blps"]:
            kw["blpairs"] = [U.BLP[b] for b in k["blps"]] if rng.random() < 0.5 else [U.blp_int(b) for b in k["blps"]]
        for nm in ("times", "lsts"):
            if k[nm]:
                t = [0.5 * (U.jd(a // 2) + U.jd(a - a // 2)) for a in k[nm]]
                kw[nm] = np.array(t if nm == "times" else [U.lst(x) for x in t])
                if rng.random() < 0.5:
                    kw[nm] = list(kw[nm])
        if k["pols"]:
            form = rng.random()
            if form < 0.4:
                kw["polpairs"] = [U.POLI[p] for p in k["pols"]]
            elif form < 0.7:
                kw["polpairs"] = [U.POL[p] for p in k["pols"]]
            elif form < 0.8:
                kw["polpairs"] = np.array([U.POLI[p] for p in k["pols"]])
            else:
                kw["polpairs"] = [U.POL[p][0] if U.POL[p][0] == U.POL[p][1] else U.POL[p] for p in k["pols"]]
        return kw

    def range_of(self, s, u):
        if u is not None:
            try:
                for i, x in enumerate(self.uvp.spw_ids(u)):
                    if x == s:
                        return u.get_spw_ranges([i])[0]
            except Exception:
                pass
        f0, nf, nd = self.uvp.SPW[s]
        return (f0, f0 + nf * self.uvp.DF, nf, nd)

    # ------------------------------------------------------------------ one behaviour
    def run(self, trace):
        self.trace, self.done = trace, []
        self.dir = tempfile.mkdtemp(prefix="spectra_")
        self.reg, self.snap, self.abs, self.file = {}, {}, {}, {}
        self.uvp.RPREFIX = self.rng.choice([((),), ((0,), (1,))])
        try:
            for act in trace:
                self.done.append(act)
                self.count("steps")
                self.count("op:" + act["op"] + ("" if act["ok"] else ":refused"))
                if not self.step(act):
                    return False
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)
        return True

    def fail(self, clause, msg):
        act = self.done[-1]
        self.viol.append(dict(clause=clause, key=act["op"] + ":" + clause,
                              detail=f"{act['op']} {act['args']}: {msg}", replay=dict(behaviour=self.done)))
        return False

    def path(self, f):
        return os.path.join(self.dir, f"f{f}.h5")

    def step(self, act):
        a, op, ok = act["args"], act["op"], act["ok"]
        new = {}
        err = None
        try:
            new = getattr(self, "do_" + op)(a, act) or {}
        except Exception as exc:
            err = exc
        if (err is None) != ok:
            return self.fail("outcome", f"raised {type(err).__name__}: {err}" if err else "was accepted, must be refused")
        for s in act["sets"]:
            r, o = s["reg"], self.obj(s["obj"])
            u = new.get(r)
            if u is None:
                return self.fail("outcome", "returned nothing")
            bad = self.uvp.diff(u, o)
            self.count("objects compared")
            if bad:
                return self.fail(bad[0][0], "; ".join(x[1] for x in bad[:3]))
            self.reg[r], self.abs[r] = u, s["obj"]
            self.snap[r] = copy.deepcopy(u)
        for r, u in self.reg.items():
            if r in new:
                continue
            d = self.uvp.delta(self.snap[r], u)
            if d:
                return self.fail("input-modified", f"object {r} changed in {d}")
        if op == "eq" and err is None and self.eqmsg:
            return self.fail("equality", self.eqmsg)
        return True

    def do_make(self, a, act):
        return {s["reg"]: self.construct(self.obj(s["obj"])) for s in act["sets"]}

    do_tile = do_make

    def do_copy(self, a, act):
        return {a["to"]: copy.deepcopy(self.reg[a["reg"]])}

    def do_select(self, a, act):
        u = self.reg[a["reg"]]
        kw = self.criteria(a["crit"], u, self.abs[a["reg"]]["spws"])
        if self.abs[a["reg"]]["meta"]:  # the check of a full object does not apply to one without data
            kw["run_check"] = False
        if a["inplace"]:
            u.select(inplace=True, **kw)
            return {a["reg"]: u}
        out = u.select(inplace=False, **kw)
        if a["to"] == a["reg"]:
            d = self.uvp.delta(self.snap[a["reg"]], u)
            if d:
                raise AssertionError(f"selection into a copy changed the original in {d}")
        return {a["to"]: out}

    def do_write(self, a, act):
        p, f = self.path(a["file"]), a["file"]
        before = open(p, "rb").read() if os.path.exists(p) else None
        u = self.reg[a["reg"]]
        try:
            if f == 3:  # inside a container, next to another spectrum
                psc = self.C.PSpecContainer(p, mode="rw", keep_open=False)
                psc.set_pspec("grp", "dA_x_dB", u, overwrite=a["ow"])
            else:
                u.write_hdf5(p, overwrite=a["ow"])
        except Exception:
            if f != 3 and before is not None and open(p, "rb").read() != before:
                raise RuntimeError("refused write changed the file") from None
            raise
        self.file[f] = self.abs[a["reg"]]
        ref = self.file.setdefault("real", {})
        ref[f] = copy.deepcopy(u)

    def do_read(self, a, act):
        import h5py
        f, p = a["file"], self.path(a["file"])
        k = a["crit"]
        ref = self.file["real"][f]
        kw = self.criteria(k, ref, self.file[f]["spws"])
        u = self.P.UVPSpec()
        if self.reg and self.rng.random() < 0.3:  # reading replaces whatever the object held
            u = copy.deepcopy(self.reg[self.rng.choice(sorted(self.reg))])
        if f == 3:
            if not kw and not a["meta"]:
                psc = self.C.PSpecContainer(p, mode="r", keep_open=False)
                u = psc.get_pspec("grp", "dA_x_dB")
            else:
                with h5py.File(p, "r") as fd:
                    u.read_from_group(fd["grp/dA_x_dB"], just_meta=a["meta"], **kw)
        else:
            u.read_hdf5(p, just_meta=a["meta"], **kw)
        if act["ok"] and not a["meta"]:
            want = ref.select(inplace=False, **kw) if kw else ref
            d = self.uvp.delta(want, u)
            if d:
                raise LookupError(f"what was read differs from the selection of what was written in {d}")
            if not (u == want) or not (want == u):
                raise LookupError("what was read does not compare equal to what was written")
        return {a["to"]: u}

    def do_combine(self, a, act):
        objs = [self.reg[r] for r in a["regs"]]
        how = a["how"]
        if how == "flat":
            out = self.P.combine_uvpspec(objs, merge_history=self.rng.random() < 0.5, verbose=False)
        elif how == "recursive":
            out = self.P.recursive_combine_uvpspec(objs)
        elif how == "plus":
            out = objs[0]
            for o in objs[1:]:
                out = out + o
        else:
            paths = []
            for i, o in enumerate(objs):
                paths.append(os.path.join(self.dir, f"tmp_{i}.h5"))
                o.write_hdf5(paths[-1], overwrite=True)
            if len(paths) == 1:
                out = objs[0]
            else:
                out = self.P.combine_uvpspec(paths, verbose=False)
        for r, o in zip(a["regs"], objs):
            d = self.uvp.delta(self.snap[r], o)
            if d:
                raise RuntimeError(f"combination changed its input {r} in {d}")
        return {a["to"]: copy.deepcopy(out) if any(out is o for o in objs) else out}

    def do_fold(self, a, act):
        u = self.reg[a["reg"]]
        u.fold_spectra()
        return {a["reg"]: u}

    def do_eq(self, a, act):
        x, y = self.reg[a["a"]], self.reg[a["b"]]
        got, back = x == y, y == x
        self.eqmsg = None
        if got != back:
            self.eqmsg = f"equality of objects {a['a']} and {a['b']} is not symmetric"
        elif got and not a["same"]:
            self.eqmsg = f"objects {a['a']} and {a['b']} hold different cells but compare equal"
        elif not got and not self.uvp.delta(x, y):
            self.eqmsg = f"objects {a['a']} and {a['b']} are identical but compare unequal"


def work(item):
    seed, traces = item
    r = Replay(seed)
    with contextlib.redirect_stdout(io.StringIO()):
        for t in traces:
            r.run(t)
            if len(r.viol) >= 5:
                break
    return dict(violations=r.viol, counts=r.counts,
                samples=[[dict(op=x["op"], args=x["args"], ok=x["ok"]) for x in traces[0][:8]]])


def replay(chk, traces, procs=8):
    items = [(chk.seed * 100 + i, c) for i, c in enumerate(core.chunks(traces, procs * 4))]
    for res in core.pmap(work, items, procs):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))


