"""G01: redundant groups and the baseline pairs formed from them.

Redundant.tla states, for arrays on a grid and two data sets with flags, which groups there are, which antennas are bad,
which baseline pairs have to and may be formed, how baseline pairs of a spectrum object are grouped and which pairs deserve
a warning.  Its behaviours are replayed on data sets with these antenna positions (moved a little, so that no baseline is
exactly along an axis)."""
import contextlib
import io
import math
import warnings

import numpy as np

from .. import core

NA = 6


def T(x):
    """lists of a record as tuples"""
    return tuple(T(y) for y in x) if isinstance(x, list) else x


def line(v):
    return v if v[1] > 0 or (v[1] == 0 and v[0] >= 0) else (-v[0], -v[1])


class Bad(Exception):
    pass


def itrf(enu):
    """positions as the telescope wants them: earth-centred axes, relative to its location"""
    from astropy.coordinates import EarthLocation
    from pyuvdata.utils import ECEF_from_ENU

    loc = EarthLocation.from_geodetic(lon=21.428, lat=-30.7215, height=1051)
    ants = sorted(enu)
    xyz = ECEF_from_ENU(np.array([enu[a] for a in ants]), center_loc=loc)
    return dict(zip(ants, xyz - np.array([x.to_value("m") for x in (loc.x, loc.y, loc.z)])))


class Replay:
    def __init__(self, seed):
        import hera_pspec as hp
        from .. import uvd
        self.V, self.hp, self.seed = uvd, hp, seed
        self.viol, self.counts = [], {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ------------------------------------------------------------------ data
    def layout(self, a):
        self.rng = rng = np.random.default_rng(self.seed)
        self.unit = u = [4.0, 4.0, 0.5, 150.0][self.seed % 4]
        self.tol = {4.0: 1.0, 0.5: 0.3, 150.0: 1.0}[u]
        self.pos = {i: tuple(p) for i, p in enumerate(a["pos"])}
        if rng.random() < 0.5:
            num = [int(x) for x in rng.permutation(60)[:NA]]
        else:
            num = sorted(int(x) for x in rng.permutation(12)[:NA])
        self.num, self.model = num, {n: i for i, n in enumerate(num)}
        small = 0.0003 * u
        self.xyz = {}
        for i in rng.permutation(NA):
            x, y = self.pos[int(i)]
            self.xyz[num[i]] = np.array([4 * x * u, 3 * y * u, 0.0]) + small * (2 * rng.random(3) - 1)
        self.itrf = itrf(self.xyz)
        pols, nt, nf = [(["xx"], 2, 4), (["xx"], 4, 2), (["xx", "yy"], 2, 2)][self.seed % 3]
        self.uvds = []
        for d in range(2):
            bls = sorted(tuple(x[:2]) for x in a["data"][d])
            order = [bls[i] for i in rng.permutation(len(bls))]
            uvd = self.V.build(bls=[(num[p], num[q]) for p, q in order], pols=pols, ntimes=nt, nfreq=nf, seed=self.seed, pos=self.itrf)
            self.V._TPL.clear(), self.V._TEL.clear()
            flags = {tuple(x[:2]): x[2] for x in a["data"][d]}
            for p, q in bls:
                w = np.zeros(8, dtype=bool)
                w[rng.permutation(8)[:flags[(p, q)]]] = True
                inds = uvd.antpair2ind(num[p], num[q], ordered=False)
                uvd.flag_array[inds] = w.reshape(nt, nf, len(pols))
            self.uvds.append(uvd)
        self.same = self.uvds[0] is not None and a["data"][0] == a["data"][1]
        self.before = [self.V.state(x) for x in self.uvds]

    def vec(self, p):
        a, b = self.pos[p[0]], self.pos[p[1]]
        return (b[0] - a[0], b[1] - a[1])

    def m(self, bl):
        """antenna numbers to model antennas"""
        if not (isinstance(bl, tuple) and len(bl) == 2 and all(int(x) in self.model for x in bl)):
            raise Bad(f"{bl!r} is not a baseline of the array")
        return tuple(self.model[int(x)] for x in bl)

    def real(self, p):
        return tuple(self.num[i] for i in p)

    def length(self, len2):
        return self.unit * math.sqrt(len2)

    def limits(self, lim):
        """keywords for length and angle limits"""
        kw = {}
        if lim["lo2"] >= 0 or lim["hi2"] < 100000:
            kw["bl_len_range"] = (self.length(lim["lo2"] + 0.5) if lim["lo2"] >= 0 else 0, self.length(lim["hi2"] + 0.5))
        deg = [math.degrees(math.atan2(3 * v[1], 4 * v[0])) for v in (lim["from"], lim["to"])]
        if tuple(lim["from"]) != (1, 0) or tuple(lim["to"]) != (-1, 0):
            kw["bl_deg_range"] = (deg[0] if tuple(lim["from"]) != (1, 0) else 0, deg[1] if tuple(lim["to"]) != (-1, 0) else 180)
        return kw

    def geometry(self, c, length, ang, what):
        want = self.unit * math.hypot(4 * c[0], 3 * c[1])
        if abs(length - want) > 0.01 * self.unit:
            raise Bad(f"{what}: length {length:.3f}, of its baselines {want:.3f}")
        deg = math.degrees(math.atan2(3 * c[1], 4 * c[0])) if tuple(c) != (0, 0) else 0.0
        if tuple(c) != (0, 0) and abs((ang - deg + 90) % 180 - 90) > 1.0:
            raise Bad(f"{what}: angle {ang:.3f}, of its baselines {deg:.3f}")

    def unique(self, pairs, what):
        if len(set(pairs)) != len(pairs):
            raise Bad(f"{what}: {[p for p in set(pairs) if pairs.count(p) > 1][:3]} more than once")

    def members(self, a, chunks):
        """the baseline pairs formed, in sub-groups, are those specified"""
        o = a["o"]
        groups = {tuple(T(g["c"])): g for g in a["groups"]}
        got, flipped, size = {}, {}, {}
        for k, c in enumerate(chunks):
            for x, y in c:
                p, q = self.m(x), self.m(y)
                v, w = self.vec(p), self.vec(q)
                key = line(v)
                if v != w:
                    raise Bad(f"baselines {self.real(p)} and {self.real(q)} of a pair are not redundant (orientation included)")
                f = key != v
                if flipped.setdefault(key, f) != f:
                    raise Bad(f"baselines of the group of {self.real(p)} are not all in the same direction")
                got.setdefault(key, []).append((p[::-1], q[::-1]) if f else (p, q))
            if len({line(self.vec(self.m(x))) for x, _ in c}) > 1:
                raise Bad("a sub-group mixes redundant groups")
            if a["per"] and c:
                size.setdefault(line(self.vec(self.m(c[0][0]))), []).append(len(c))
        for key, s in size.items():
            if any(x != a["per"] for x in s[:-1]) or s[-1] > a["per"]:
                raise Bad(f"sub-groups of sizes {s}, specified {a['per']}")
        for key, pairs in got.items():
            if key not in groups:
                raise Bad(f"baselines of group {key} ({pairs[:2]}) were not asked for")
        for key, g in groups.items():
            may = {T(x) for x in g["may"]}
            have = got.get(key, [])
            self.count("groups compared")
            self.count("baseline pairs", len(have))
            if not set(have) <= may:
                raise Bad(f"group {key}: pairs {sorted(set(have) - may)[:3]} (antennas of the model {self.num}) do not belong there")
            for mu in g["must"]:
                n = sum(T(x) in have for x in mu)
                if n != 1:
                    raise Bad(f"group {key}: of {mu}, {n} were formed")
            if o["noperm"]:
                for p, q in have:
                    if p != q and (q, p) in have:
                        raise Bad(f"group {key}: both orders of {(p, q)}")

    # ------------------------------------------------------------------ calls
    def calc(self, a):
        o, num = a["o"], self.num
        kw = self.limits(a["lim"])
        if a["autos"]:
            kw["include_autocorrs"] = True
        if not a["crosses"]:
            kw["include_crosscorrs"] = False
        if o["noautos"]:
            kw["exclude_auto_bls"] = True
        if o["nocross"]:
            kw["exclude_cross_bls"] = True
        if not o["filter"]:
            kw["filter_blpairs"] = False
        if a["t"] < 8 or self.rng.random() < 0.3:
            kw["xant_flag_thresh"] = a["t"] / 8
        kw["exclude_permutations"] = o["noperm"]
        if o["noperm"] and self.rng.random() < 0.3:
            del kw["exclude_permutations"]
        if a["per"]:
            kw["Nblps_per_group"] = a["per"]
        if self.tol != 1.0 or self.rng.random() < 0.2:
            kw["bl_tol"] = self.tol
        given = [num[i] for i in a["given"]]
        if a["hasgiven"]:
            kw["xants"] = given
        extra = self.rng.random() < 0.7
        u1, u2 = self.uvds
        if self.same and self.rng.random() < 0.5:
            u2 = u1
        res = self.hp.utils.calc_blpair_reds(u1, u2, extra_info=extra, **kw)
        bls1, bls2, blps, x1, x2 = res[:5]
        if a["hasgiven"] and given != [num[i] for i in a["given"]]:
            raise Bad(f"the list of antennas given was changed to {given}")
        for d, x in enumerate((x1, x2)):
            want = {num[i] for i in a["bad"][d]} | set(given)
            if set(int(i) for i in x) != want:
                raise Bad(f"bad antennas of data set {d + 1}: {sorted(int(i) for i in x)}, specified {sorted(want)}")
        chunks = [[x] for x in blps] if not a["per"] else blps
        if [list(zip(x, y)) for x, y in zip(bls1, bls2)] != blps if a["per"] else list(zip(bls1, bls2)) != list(blps):
            raise Bad("the two lists of baselines are not those of the list of pairs")
        if len(bls1) != len(blps) or len(bls2) != len(blps):
            raise Bad("lists of different length")
        flat = [(self.m(x), self.m(y)) for c in chunks for x, y in c]
        self.unique(flat, "baseline pairs")
        self.members(a, chunks)
        if extra:
            rg, lens, angs = res[5:]
            if len(rg) != len(blps) or any(a["per"] and len(x) != len(c) for x, c in zip(rg, chunks)):
                raise Bad("indices of groups do not have the shape of the pairs")
            idx = [i for x in rg for i in x] if a["per"] else list(rg)
            of = {}
            for (p, _), i in zip(flat, idx):
                of.setdefault(int(i), set()).add(line(self.vec(p)))
            if any(len(x) > 1 for x in of.values()) or len(set().union(*of.values())) != len(of):
                raise Bad(f"indices of groups do not tell the groups apart: {of}")
            if len(lens) != len(angs):
                raise Bad("lengths and angles do not go together")
            for i, x in of.items():
                if not 0 <= i < len(lens):
                    raise Bad(f"index {i} of a group, {len(lens)} lengths")
                self.geometry(next(iter(x)), lens[i], angs[i], f"group {i}")

    def reds(self, a):
        kw = self.limits(a["lim"])
        if a["pick"]:
            kw["pick_data_ants"] = True
        if a["autos"]:
            kw["add_autos"] = True
        if a["only"]:
            kw["autos_only"] = True
        if a["lim"]["ew"]:
            kw["min_EW_cut"] = self.unit * 4 * (a["lim"]["ew"] - 0.5)
        if self.tol != 1.0:
            kw["bl_error_tol"] = self.tol
        if a["hasgiven"]:
            kw["xants"] = [self.num[i] for i in a["given"]]
        src = self.uvds[a["d"] - 1]
        if not a["pick"] and self.rng.random() < 0.4:
            src = dict(self.xyz)
        reds, lens, angs = self.hp.utils.get_reds(src, **kw)
        if not len(reds) == len(lens) == len(angs):
            raise Bad("groups, lengths and angles do not go together")
        want = {tuple(T(g["c"])): {T(x) for x in g["bls"]} for g in a["groups"]}
        got = {}
        for r, l, g in zip(reds, lens, angs):
            ps = [self.m(tuple(b)) for b in r]
            self.unique(ps, "baselines of a group")
            vs = {self.vec(p) for p in ps}
            if len(vs) != 1:
                raise Bad(f"a group of baselines that are not redundant or not in one direction: {r}")
            v = vs.pop()
            if line(v) in got:
                raise Bad(f"two groups are redundant with each other, one of them {r}")
            got[line(v)] = set(ps) if v == line(v) else {p[::-1] for p in ps}
            self.geometry(line(v), l, g, f"group of {r[0]}")
        self.count("groups compared", len(want))
        if got != want:
            k = [c for c in set(got) | set(want) if got.get(c) != want.get(c)][0]
            raise Bad(f"group {k}: {sorted(got.get(k, []))}, specified {sorted(want.get(k, []))} (antennas of the model {self.num}), {kw}")

    def construct(self, a):
        o = a["o"]
        bls = [self.real(p) for p in a["bls"]]
        kw = dict(exclude_auto_bls=o["noautos"], exclude_cross_bls=o["nocross"], exclude_permutations=o["noperm"])
        b1, b2, blps = self.hp.utils.construct_blpairs(list(bls), **kw)
        if [tuple(x) for x in zip(b1, b2)] != blps or len(b1) != len(blps):
            raise Bad("the two lists of baselines are not those of the list of pairs")
        self.unique(blps, "pairs")
        want = {(bls[i - 1], bls[j - 1]) for i, j in a["pairs"]}
        if set(blps) != want:
            raise Bad(f"pairs of {bls} with {kw}: {blps}, specified {sorted(want)}")
        if a["per"]:
            g1, g2, g = self.hp.utils.construct_blpairs(list(bls), group=True, Nblps_per_group=a["per"], **kw)
            n = a["per"]
            cut = [[s[i:i + n] for i in range(0, len(s), n)] for s in (b1, b2, blps)]
            if [[list(x) for x in s] for s in (g1, g2, g)] != [[list(x) for x in s] for s in cut]:
                raise Bad(f"groups of {n}: {g}, of the list {blps}")

    def spectra(self, pairs):
        """a spectrum object with these baseline pairs"""
        bls = sorted({tuple(sorted(p)) for b in pairs for p in b})
        kw = dict(bls=[self.real(p) for p in bls], pols=["xx"], ntimes=2, nfreq=4, pos=self.itrf)
        u = self.V.build(seed=1, **kw)
        v = self.V.build(seed=2, **kw)
        self.V._TPL.clear(), self.V._TEL.clear()
        ds = self.hp.PSpecData(dsets=[u, v], wgts=[None, None])
        return ds.pspec([self.real(b[0]) for b in pairs], [self.real(b[1]) for b in pairs], (0, 1), [("xx", "xx")], spw_ranges=[(0, 4)],
                        input_data_weight="identity", norm="I", taper="none", verbose=False, little_h=True)

    def blvecs(self, a):
        pairs = [T(b) for b in a["pairs"]]
        pairs = [pairs[i] for i in self.rng.permutation(len(pairs))]
        if any(p[0] == p[1] for b in pairs for p in b):
            raise core.MachineryError("autos")
        tol = 0.002 * self.unit if a["lens"] else self.tol
        kw = dict(bl_error_tol=tol)
        if a["lens"]:
            kw["match_bl_lens"] = True
        elif tol == 1.0 and self.rng.random() < 0.5:
            kw = {}
        back = {(self.real(p), self.real(q)): (p, q) for p, q in pairs}
        use = self.rng.random()
        if use < 0.3:
            d3 = self.rng.random() < 0.5
            vec = lambda p: self.xyz[self.num[p[1]]] - self.xyz[self.num[p[0]]]
            src = {k: ((vec(p) + vec(q)) / 2)[:3 if d3 else 2] for k, (p, q) in back.items()}
            sign = 1
        else:
            src = self.spectra(pairs)
            sign = -1
        g, lens, angs, tags = self.hp.utils.get_blvec_reds(src, **kw)
        if not len(g) == len(lens) == len(angs) == len(tags):
            raise Bad("groups, lengths, angles and tags do not go together")
        flat = [x for y in g for x in y]
        self.unique(flat, "baseline pairs in groups")
        if set(flat) != set(back):
            raise Bad(f"baseline pairs in groups {flat}, of {sorted(back)}")
        want = {frozenset(T(x) for x in y["pairs"]): y["len2"] for y in a["groups"]}
        for y, l, t, an in zip(g, lens, tags, angs):
            s = frozenset(back[x] for x in y)
            self.count("groups compared")
            if s not in want:
                raise Bad(f"group {sorted(s)} ({kw}), specified {[sorted(k) for k in want if k & s]}")
            if abs(l - self.length(want[s]) / 2) > 0.01 * self.unit:
                raise Bad(f"group {sorted(s)}: length {l}, specified {self.length(want[s]) / 2}")
            if abs(int(t.split("_")[0]) - l) > 0.51:
                raise Bad(f"tag {t} of a group of length {l}")
            # the angle of one of its members
            ok = False
            for p, q in s:
                v = [x + z for x, z in zip(self.vec(p), self.vec(q))]
                ok = ok or v == [0, 0] or abs((an - math.degrees(math.atan2(3 * v[1], 4 * v[0])) + 90) % 180 - 90) < 1
            if not ok:
                raise Bad(f"angle {an} of a group {sorted(s)}")
        if any(x > y + 1 for x, y in zip(lens, lens[1:])):
            raise Bad(f"lengths of groups {[float(x) for x in lens]} are not ascending")
        if use < 0.3:
            return
        # redundant groups of the spectrum object
        grp, lens, angs = src.get_red_blpairs()
        bgrp = src.get_red_bls()[0]
        pre = {self.real(p): p for b in pairs for p in b}
        cls = []
        for y in bgrp:
            s = [pre[tuple(int(z) for z in src.bl_to_antnums(x))] for x in y]
            if len({line(self.vec(p)) for p in s}) != 1:
                raise Bad(f"get_red_bls: {s} in one group")
            cls.append(line(self.vec(s[0])))
        if sorted(p for y in bgrp for p in (pre[tuple(int(z) for z in src.bl_to_antnums(x))] for x in y)) != sorted(pre.values()):
            raise Bad("get_red_bls does not hold every baseline once")
        one = [{self.vec(pre[tuple(int(z) for z in src.bl_to_antnums(x))]) for x in y} for y in bgrp]
        if sum(map(len, one)) != len(set().union(*one)):
            raise Bad(f"get_red_bls: redundant baselines in different groups: {one}")
        red = {tuple(T(r["c"])): r for r in a["red"]}
        for c, y, l, an in zip(cls, grp, lens, angs):
            s = {back[tuple(tuple(int(w) for w in z) for z in src.blpair_to_antnums(x))] for x in y}
            if len(s) != len(y) or not s <= {T(x) for x in red[c]["may"]}:
                raise Bad(f"get_red_blpairs: {sorted(s)} in the group {c}")
            self.geometry(c, l, an, "get_red_blpairs")
            red[c].setdefault("got", set()).update(s)
        for c, r in red.items():
            lost = {T(x) for x in r["must"]} - r.get("got", set())
            if lost:
                raise Bad(f"get_red_blpairs: {sorted(lost)} not in the group {c}")

    def validate(self, a):
        pairs = [T(b) for b in a["pairs"]]
        blps = [(self.real(p), self.real(q)) for p, q in pairs]
        arg = blps if self.rng.random() < 0.5 else [blps[i:i + 2] for i in range(0, len(blps), 2)]
        out = io.StringIO()
        with contextlib.redirect_stdout(out), warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            self.hp.pspecdata.validate_blpairs(arg, self.uvds[0], self.uvds[1], baseline_tol=self.length(a["tol2"] + 0.5))
        text = out.getvalue() + " ".join(str(x.message) for x in w)
        told = {b for b, r in zip(pairs, blps) if str(r) in text}
        want = {T(b) for b in a["warn"]}
        if told != want:
            raise Bad(f"warned about {sorted(told)}, specified {sorted(want)}: {text[:200]}")

    def run(self, traces):
        for tr in traces:
            self.seed += 1
            done = []
            self.layout(tr[0])
            for a in tr[1:]:
                done.append(a)
                if a["op"] == "skip":
                    continue
                self.count(a["op"])
                try:
                    getattr(self, a["op"])(a)
                    if self.before != [self.V.state(u) for u in self.uvds]:
                        raise Bad("the data sets were changed")
                except Bad as exc:
                    self.viol.append(dict(clause=a["op"], detail=str(exc)[:1500] + f" | {({k: v for k, v in a.items() if k not in ('groups', 'pairs', 'red')})}",
                                          replay=[tr[0], a], key=a["op"]))
                    break
            if len(self.viol) > 10:
                break
        return dict(violations=self.viol, counts=self.counts, samples=[[a["op"] for a in tr] for tr in traces[:1]])


def work(item):
    seed, traces = item
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Replay(seed).run(traces)


def run(chk):
    import hera_pspec  # noqa: F401
    const = dict(NA=str(NA), Cols="4", Rows="3")
    traces = core.simulate_traces(chk, "Redundant", const, 4000 if chk.thorough else 480, 9)
    items = [(chk.seed * 1000 + 41 * i, c) for i, c in enumerate(core.chunks(traces, 32))]
    for res in core.pmap(work, items):
        chk.merge(res["violations"], res["counts"], res["samples"])
    chk.traces(len(traces))
