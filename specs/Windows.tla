------------------------------ MODULE Windows ------------------------------
(* Exact window functions of power spectra.                                  *)
(*                                                                           *)
(* obj is a power-spectrum object: spectral windows, baseline-pairs,         *)
(* polarization pairs, settings, and - once computed - the window function   *)
(* of every cell, recorded as a term: the channels, the beams of the first   *)
(* and the second member of the polarization pair, the baselines whose mean  *)
(* length it belongs to, and the settings.  beam[1..2] are beams cut to a    *)
(* range of channels, of which window calculations are formed directly;      *)
(* file is what was stored of them.                                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, Randomization

CONSTANTS Random, MaxStep, Emit

VARIABLES obj, beam, file, last, step
vars == <<obj, beam, file, last, step>>

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Bern(n) == IF Random THEN {RandomElement(1..n) = 1} ELSE BOOLEAN
Tiny == ~Random
IfTiny(a, b) == IF Tiny THEN a ELSE b

(* ----------------------------------------------------------------- universe *)
(* window -> channels, delays (window 1 has fewer delays than channels) *)
Chan == [s \in 0..4 |-> <<6, 5, 8, 7, 4>>[s + 1]]
Dlys == [s \in 0..4 |-> <<6, 4, 8, 7, 4>>[s + 1]]
Start == [s \in 0..4 |-> <<10, 110, 210, 310, 110>>[s + 1]]    \* first channel in the band of the beam
Band == 330
(* pair -> its baselines; the baselines 1 (1-2), 2 (2-3), 3 (3-4) are short, 4 (1-3) and 5 (2-4) long *)
Bls == [b \in 0..7 |-> <<<<1, 1>>, <<1, 2>>, <<2, 3>>, <<4, 5>>, <<2, 1>>, <<5, 4>>, <<1, 4>>, <<3, 3>>>>[b + 1]]
Short == {1, 2, 3}
Same(x, y) == (x \in Short) = (y \in Short)
Pols == [p \in 0..3 |-> <<<<"xx", "xx">>, <<"yy", "yy">>, <<"xx", "yy">>, <<"pI", "pI">>>>[p + 1]]
BeamPols == {"xx", "yy", "pI"}

(* -------------------------------------------------------------- the objects *)
SpwSeqs == IfTiny({<<0>>, <<1>>, <<3, 0>>}, {<<0>>, <<3>>, <<2>>, <<4>>, <<0, 3>>, <<3, 2>>, <<2, 4, 0>>, <<4, 3>>, <<3, 0>>, <<1>>, <<0, 1>>, <<3, 3 - 1, 0>>})
PairSets == IfTiny({{0, 3}, {6, 1}}, (SUBSET (0..7)) \ {{}})
PolSeqs == IfTiny({<<0>>, <<2, 1>>}, {<<0>>, <<1>>, <<2>>, <<3>>, <<0, 1>>, <<1, 0>>, <<2, 0>>, <<1, 2>>, <<0, 1, 2>>, <<2, 1, 3>>, <<3, 0>>})
Settings == [taper : IfTiny({"none"}, {"none", "hann"}), h : IfTiny({TRUE}, BOOLEAN), cosmo : IfTiny({1}, {1, 2})]

NoObj == [spws |-> <<>>, pairs |-> {}, pols |-> <<>>, set |-> [taper |-> "none", h |-> TRUE, cosmo |-> 1], folded |-> FALSE, exact |-> FALSE, wf |-> {}]
(* baselines of the redundant group a pair belongs to, among those in the object; none if its two are not redundant *)
GroupOf(b, pairs) ==
  IF ~Same(Bls[b][1], Bls[b][2]) THEN {}
  ELSE {x \in UNION {{Bls[c][1], Bls[c][2]} : c \in pairs} : Same(x, Bls[b][1])}
(* beams of the two members: those of a directory of files, or the same given one *)
Mem(src, p) == IF src.kind = "files" THEN Pols[p] ELSE <<src.pol, src.pol>>
Term(o, src, s, b, p) == [chan |-> s, beams |-> Mem(src, p), bls |-> GroupOf(b, o.pairs), set |-> o.set]
Cells(o, src, spws) == {<<s, b, p, Term(o, src, s, b, p)>> : s \in spws, b \in o.pairs, p \in Range(o.pols)}

(* ------------------------------------------------------------------ recording *)
Rec(op, args, ok, o, bm, f, out) ==
  /\ obj' = o /\ beam' = bm /\ file' = f
  /\ last' = [op |-> op, args |-> args, ok |-> ok, obj |-> o, beam |-> bm, file |-> f, out |-> out]
  /\ step' = step + 1

Fresh ==
  \E q \in Pick(SpwSeqs), pr \in Pick(PairSets), ps \in Pick(PolSeqs), st \in Pick(Settings), fo \in Bern(9) :
    Rec("fresh", <<>>, TRUE, [spws |-> q, pairs |-> pr, pols |-> ps, set |-> st, folded |-> fo, exact |-> FALSE, wf |-> {}], beam, file, {})

(* sources of beams: files of all polarizations, files of some, one given beam, none *)
Sources == {[kind |-> "files", pol |-> "all"], [kind |-> "files", pol |-> "some"], [kind |-> "none", pol |-> ""]}
           \cup [kind : {"object"}, pol : BeamPols]
There(src, o) == CASE src.kind = "none" -> FALSE [] src.kind = "object" -> TRUE
                   [] OTHER -> src.pol = "all" \/ \A p \in Range(o.pols) : Range(Pols[p]) \subseteq {"xx", "pI"}
Exact(src, spws, inplace) ==
  LET here == spws = {} \/ spws = Range(obj.spws)
      todo == IF spws = {} THEN Range(obj.spws) ELSE spws
      ok == /\ spws \subseteq Range(obj.spws) /\ There(src, obj) /\ ~obj.folded
            /\ \A s \in todo : Dlys[s] = Chan[s]
      c == Cells(obj, src, todo)
      put == ok /\ inplace /\ here
  IN Rec("exact", [src |-> src, spws |-> spws, inplace |-> inplace], ok,
         IF put THEN [obj EXCEPT !.exact = TRUE, !.wf = c] ELSE obj, beam, file, IF ok /\ ~put THEN c ELSE {})
ExactAny ==
  \E src \in Pick(IfTiny(Sources, Sources)), all \in Bern(2), odd \in Bern(3), lone \in Bern(3), ip \in Bern(3) :
  \E one \in Pick(IF odd THEN Sources ELSE {[kind |-> "files", pol |-> "all"]}), s \in Pick(Range(obj.spws)), s2 \in Pick(Range(obj.spws)) :
    Exact(IF Tiny THEN src ELSE one, IF all THEN {} ELSE IF lone THEN {s} ELSE {s, s2}, ~ip)

(* part of an object, with the window functions it has *)
Narrow ==
  \E what \in Pick({"spw", "pair", "pol"}) :
  \E k \in Pick(CASE what = "spw" -> DOMAIN obj.spws [] what = "pol" -> DOMAIN obj.pols [] OTHER -> obj.pairs) :
    LET o == CASE what = "spw" -> [obj EXCEPT !.spws = IF Len(@) > 1 THEN RemoveAt(@, k) ELSE @]
               [] what = "pol" -> [obj EXCEPT !.pols = IF Len(@) > 1 THEN RemoveAt(@, k) ELSE @]
               [] OTHER -> [obj EXCEPT !.pairs = IF Cardinality(@) > 1 THEN @ \ {k} ELSE @]
    IN Rec("narrow", what, TRUE,
           [o EXCEPT !.wf = {c \in @ : c[1] \in Range(o.spws) /\ c[2] \in o.pairs /\ c[3] \in Range(o.pols)}], beam, file, {})

(* the object stored and read again *)
Reread == Rec("reread", <<>>, TRUE, obj, beam, file, {})

(* ------------------------------------------------------------------- beams *)
Load(i, pol, map, cut, a, n) ==
  LET ok == ~cut \/ (0 <= a /\ n > 0 /\ a + n <= Band)
  IN Rec("load", [i |-> i, pol |-> pol, map |-> map, cut |-> cut, a |-> a, n |-> n], ok, obj,
         IF ok THEN [beam EXCEPT ![i] = [pol |-> pol, map |-> map, lo |-> IF cut THEN a ELSE 0, n |-> IF cut THEN n ELSE Band]] ELSE beam, file, {})
LoadAny ==
  \E i \in Pick({1, 2}), pol \in Pick(BeamPols), big \in Bern(12), mate \in Bern(2), cut \in Bern(3), odd \in Bern(8) :
  \E a \in Pick(IfTiny({0, 100}, 0..200)), n \in Pick(IfTiny({6}, {4, 5, 6, 7, 9, 30})), bad \in Pick({-1, 0, 326}) :
    LET o == beam[3 - i] IN
    IF mate /\ o.n > 0 THEN Load(i, pol, o.map, o.n < Band, o.lo, o.n)
    ELSE IF odd THEN Load(i, pol, "one", TRUE, bad, IF bad = 0 THEN 0 ELSE n)
    ELSE Load(i, pol, IF big THEN "two" ELSE "one", ~cut, a, n)

(* cut a beam further; the range counts from the channels it has *)
Cut(i, a, n) ==
  LET b == beam[i] ok == 0 <= a /\ n > 0 /\ a + n <= b.n
  IN Rec("cut", [i |-> i, a |-> a, n |-> n], ok, obj, IF ok THEN [beam EXCEPT ![i].lo = @ + a, ![i].n = n] ELSE beam, file, {})
CutAny ==
  \E i \in Pick({k \in {1, 2} : beam[k].n > 0}), n \in Pick(IfTiny({4}, 4..7)), odd \in Bern(5) :
  \E a \in Pick(IF odd THEN {-1, beam[i].n, beam[i].n - 1} ELSE 0..(IF beam[i].n > n THEN beam[i].n - n ELSE 0)) :
    Cut(i, a, n)

(* ------------------------------------- window functions of beams, directly *)
Fits == /\ beam[1].n \in 4..9
        /\ beam[1].lo = beam[2].lo /\ beam[1].n = beam[2].n /\ beam[1].map = beam[2].map
Lens == IfTiny({{1}}, {{1}, {4}, {1, 4}, {2, 5}, {3}, {1, 2, 4}})
CylTerm(len, st, i, j) == [lo |-> beam[i].lo, n |-> beam[i].n, map |-> beam[i].map, beams |-> <<beam[i].pol, beam[j].pol>>, bls |-> {len}, set |-> st]
(* one beam given stands for both *)
Direct(op, args, one, lens, st, ok) ==
  LET j == IF one THEN 1 ELSE 2
      fits == IF one THEN beam[1].n \in 4..9 ELSE Fits
  IN [ok |-> ok /\ fits, out |-> IF ok /\ fits THEN {CylTerm(l, st, 1, j) : l \in lens} ELSE {}]
CylAny ==
  \E l \in Pick({1, 4, 2}), one \in Bern(4), st \in Pick(Settings), how \in Pick({"own", "given", "weighted", "units"}) :
    LET d == Direct("cyl", <<>>, one, {l}, st, how # "units") IN
    Rec("cyl", [one |-> one, lens |-> {l}, set |-> st, how |-> how], d.ok, obj, beam, file, d.out)
SphAny ==
  \E ls \in Pick(Lens), one \in Bern(4), st \in Pick(Settings), how \in Pick({"plain", "weighted", "plain", "weights", "badweights", "nonlinear"}) :
    LET d == Direct("sph", <<>>, one, ls, st, how \notin {"badweights", "nonlinear"}) IN
    Rec("sph", [one |-> one, lens |-> ls, set |-> st, how |-> how], d.ok, obj, beam, file, d.out)
(* storing them in a file: an existing one is replaced only on request, and not by a request that is refused *)
StoreAny ==
  \E ls \in Pick(Lens), one \in Bern(4), st \in Pick(Settings), how \in Pick({"plain", "weights", "badweights", "units"}), clobber \in Bern(2) :
    LET d == Direct("store", <<>>, one, ls, st, how \notin {"badweights", "units"} /\ (file = {} \/ clobber)) IN
    Rec("store", [one |-> one, lens |-> ls, set |-> st, how |-> how, clobber |-> clobber], d.ok, obj, beam, IF d.ok THEN d.out ELSE file, d.out)

NoBeam == [pol |-> "xx", map |-> "one", lo |-> 0, n |-> 0]
Init ==
  /\ obj = NoObj /\ beam = [i \in {1, 2} |-> NoBeam] /\ file = {} /\ step = 0
  /\ last = [op |-> "init", args |-> <<>>, ok |-> TRUE, obj |-> obj, beam |-> beam, file |-> file, out |-> {}]

Ready == beam[1].n \in 4..9 /\ (beam[2].n > 0)
Some == IF Random
        THEN \E r \in {RandomElement(1..20)} :
               CASE obj.spws = <<>> -> Fresh
                 [] r <= 3 -> Fresh
                 [] r <= 8 -> ExactAny
                 [] r <= 10 -> Narrow
                 [] r = 11 -> Reread
                 [] beam[1].n = 0 -> LoadAny
                 [] beam[2].n = 0 -> LoadAny
                 [] r = 12 -> LoadAny
                 [] r = 13 -> CutAny
                 [] ~Ready -> IF beam[1].n > 9 THEN \E n \in Pick(4..7), a \in Pick(0..(beam[1].n - 9)) : Cut(1, a, n) ELSE LoadAny
                 [] r <= 15 -> CylAny
                 [] r <= 18 -> SphAny
                 [] OTHER -> StoreAny
        ELSE IF obj.spws = <<>> THEN Fresh
             ELSE ExactAny \/ Narrow \/ LoadAny \/ (\E i \in {1, 2} : beam[i].n > 0 /\ Cut(i, 0, 4)) \/ (Ready /\ (CylAny \/ StoreAny))
Next == step < MaxStep /\ Some
Spec == Init /\ [][Next]_vars
Shown == Emit => PrintT("@@" \o ToJson([n |-> step, act |-> last]))

(* ------------------------------------------------------------------ checked *)
(* every cell has one, of its own channels, polarization pair and redundant group *)
Own == /\ obj.exact => {c[1] : c \in obj.wf} = Range(obj.spws) /\ {c[2] : c \in obj.wf} = obj.pairs
                       /\ {c[3] : c \in obj.wf} = Range(obj.pols)
                       /\ Cardinality(obj.wf) = Len(obj.spws) * Cardinality(obj.pairs) * Len(obj.pols)
       /\ ~obj.exact => obj.wf = {}
       /\ \A c \in obj.wf : c[4].chan = c[1] /\ (c[4].bls # {} => {Bls[c[2]][1], Bls[c[2]][2]} \subseteq c[4].bls)
       /\ \A c, d \in obj.wf : c[1] = d[1] /\ c[3] = d[3] /\ c[4].bls = d[4].bls => c[4] = d[4]
Filed == \A t \in file : t.n \in 4..9
Within == \A i \in {1, 2} : beam[i].lo >= 0 /\ beam[i].lo + beam[i].n <= Band
Refused == [][~last'.ok => obj' = obj /\ beam' = beam /\ file' = file]_vars
OnlyAsked == [][(last'.op = "exact" /\ last'.out # {}) => obj' = obj]_vars
=============================================================================
