-------------------------------- MODULE Beams --------------------------------
(* Beam models and the conversion of units they are asked for.                *)
(*                                                                            *)
(* A beam has, per polarization, a table <<P, PP, s>>: its integral over the  *)
(* sky is P times a shape s of frequency, that of its square PP times the     *)
(* shape squared.  So the power spectrum scalar is P^2 / PP times that of the *)
(* table <<1, 1, s>>, whatever the shape, and the conversion from Jy to mK    *)
(* 1 / P times it.  A Gaussian beam has one table for all polarizations.      *)
(* A cosmology has parameters in thousandths.                                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, Randomization

CONSTANTS Random, MaxStep, Emit

VARIABLES beams, last, step
vars == <<beams, last, step>>
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
(* mostly x, sometimes (one time in n) one of S *)
Mostly(x, S, n) == IF Random THEN {IF RandomElement(1..n) = 1 THEN RandomElement(S) ELSE x} ELSE S \cup {x}

Codes == {1, 2, 3, 4, 0 - 5, 0 - 6, 0 - 7, 0 - 8}
Strange == {0, 5, 0 - 1, 0 - 4}
Tables == (1..6) \X (1..6) \X (0..3)
Grids == 1..3
Shift(t, i) == <<((t[1] + i) % 6) + 1, ((t[2] + 2 * i) % 6) + 1, (t[3] + i) % 4>>

(* polarizations have names: as numbers, as their usual names, as directions on the sky if the orientation is known *)
Forms == {"number", "upper", "lower", "sky"}
Orient == {"none", "east", "north"}
Known(form, code, xo) == form = "sky" => (xo # "none" \/ code > 0)

(* ---------------------------------------------------------------- cosmologies *)
(* given: Lambda, baryons, dark matter, all matter (0: not given), Hubble constant *)
Given == [L : {0, 300, 684, 700}, b : {40, 49, 60}, c : {140, 264, 400}, M : {0, 0 - 1, 300, 1000}, H : {500, 673, 1000}]
Matter(g) == CASE g.M = 0 -> g.b + g.c [] g.M = 0 - 1 -> g.b + g.c [] OTHER -> g.M
Resolved(g) == [L |-> g.L, M |-> Matter(g), k |-> 1000 - g.L - Matter(g), H |-> g.H,
                split |-> g.M > 0 /\ g.M # g.b + g.c]       \* baryons and dark matter are made to add up
Standard == [L |-> 684, b |-> 49, c |-> 264, M |-> 0, H |-> 673]

Rec(op, r) == last' = [op |-> op] @@ r

(* ------------------------------------------------------------------- beams *)
NB == 3
New ==
  \E wy \in Pick(1..14), g \in Pick(Grids), xo \in Pick(Orient),
     n \in Pick(1..4), r \in Pick([1..4 -> Codes]), t \in Pick(Tables), form \in Pick(Forms), c \in Pick(Given), dc \in Pick(1..3), odd \in Pick(Strange),
     at \in Pick(1..NB) :
    LET way == IF wy < 7 THEN "dict" ELSE <<"array", "array", "gauss", "gauss", "mixed", "lists", "gap", "strange">>[wy - 6]
        pols == {r[i] : i \in 1..n}
        no == IF form = "sky" /\ (xo = "none" \/ \E p \in pols : p > 0) THEN "number" ELSE form
        ok == way \in {"dict", "array", "gauss"}
        tab == CASE way = "array" -> [p \in {1} |-> t]
                 [] way = "gauss" -> [p \in Codes |-> <<2, 1, 0>>]
                 [] OTHER -> [p \in pols |-> Shift(t, p + 8)]
        k == IF Len(beams) < NB THEN Len(beams) + 1 ELSE at
        cos == IF dc = 1 THEN Standard ELSE c
        b == [kind |-> IF way = "gauss" THEN "gauss" ELSE "table", grid |-> g, xo |-> xo, tab |-> tab, cosmo |-> cos, unit |-> IF way = "gauss" THEN t[1] ELSE 0]
    IN /\ beams' = IF ~ok THEN beams ELSE IF k > Len(beams) THEN Append(beams, b) ELSE [beams EXCEPT ![k] = b]
       /\ Rec("new", [way |-> way, ok |-> ok, k |-> k, pols |-> {<<p, tab[p]>> : p \in DOMAIN tab}, form |-> no, odd |-> odd, grid |-> g, xo |-> xo,
                      cosmo |-> cos, default |-> dc = 1, unit |-> b.unit])

AddPol ==
  \E k \in Pick(1..Len(beams)) : \E p \in Pick(Codes), t \in Pick(Tables), form \in Pick(Forms), wrong \in Mostly("", {"shape", "strange", "text"}, 4), s \in Pick(Strange) :
    LET known == Known(form, p, beams[k].xo)
        ok == beams[k].kind = "table" /\ wrong = "" /\ known
    IN /\ beams' = IF ok THEN [beams EXCEPT ![k].tab = [q \in DOMAIN @ \cup {p} |-> IF q = p THEN t ELSE @[q]]] ELSE beams
       /\ Rec("addpol", [k |-> k, skip |-> beams[k].kind # "table", pol |-> IF wrong = "strange" THEN s ELSE p,
                         form |-> IF wrong = "strange" THEN "number" ELSE form, wrong |-> wrong, ok |-> ok, table |-> t])

(* the caller writes into the arrays and dictionaries given *)
Scribble == Rec("scribble", [x |-> 0]) /\ UNCHANGED beams

SetCosmo == \E k \in Pick(1..Len(beams)), c \in Pick(Given) :
  /\ beams' = [beams EXCEPT ![k].cosmo = c] /\ Rec("setcosmo", [k |-> k, cosmo |-> c])

Tab(k, p) == IF p \in DOMAIN beams[k].tab THEN beams[k].tab[p] ELSE <<0, 0, 0>>
Answers(k, p, form) == p \in DOMAIN beams[k].tab /\ (beams[k].kind = "gauss" \/ Known(form, p, beams[k].xo))

Integrals ==
  \E k \in Pick(1..Len(beams)) : \E p \in Pick(Codes), form \in Pick(Forms), q \in Pick(DOMAIN beams[k].tab), u \in Pick(1..3) :
    LET pol == IF u = 1 THEN p ELSE q IN
    Rec("integrals", [k |-> k, pol |-> pol, form |-> form, ok |-> Answers(k, pol, form), table |-> Tab(k, pol)]) /\ UNCHANGED beams

Omegas ==
  \E k \in Pick(1..Len(beams)) : \E n \in Pick(1..3), r \in Pick([1..3 -> DOMAIN beams[k].tab]), x \in Pick(Codes), y \in Pick(Codes), u \in Pick(1..5),
     form \in Pick({"pairs", "ints", "names", "one", "array"}) :
    LET ps == [i \in 1..(IF form = "one" THEN 1 ELSE n) |-> IF u = 1 /\ i = 1 THEN <<x, y>> ELSE IF u = 2 /\ i = 1 THEN <<x, x>> ELSE <<r[i], r[i]>>]
        ok == \A i \in DOMAIN ps : ps[i][1] = ps[i][2] /\ ps[i][1] \in DOMAIN beams[k].tab
    IN Rec("omegas", [k |-> k, pairs |-> ps, form |-> form, ok |-> ok, tables |-> [i \in DOMAIN ps |-> Tab(k, ps[i][1])]]) /\ UNCHANGED beams

(* a window of a few channels on the grid of the beam: its start, width of a channel and number of them *)
Windows == (0..4) \X {1, 2} \X {3, 8, 15}
Scalar ==
  \E k \in Pick(1..Len(beams)) : \E p \in Pick(Codes), form \in Pick(Forms), q \in Pick(DOMAIN beams[k].tab), u \in Pick(1..4), w \in Pick(Windows),
     taper \in Pick({"none", "none", "blackman-harris", "hann"}), noise \in Pick(BOOLEAN), ex \in Pick(1..5), lh \in Pick(BOOLEAN) :
    LET pol == IF u = 1 THEN p ELSE q
        t == Tab(k, pol)
        ok == Answers(k, pol, form)
    IN Rec("scalar", [k |-> k, pol |-> pol, form |-> form, ok |-> ok, win |-> w, taper |-> taper, noise |-> noise, exact |-> ex = 1, lh |-> lh,
                      shape |-> t[3], num |-> IF ex = 1 THEN 1 ELSE t[1] * t[1], den |-> IF ex = 1 THEN 1 ELSE t[2]]) /\ UNCHANGED beams

Convert ==
  \E k \in Pick(1..Len(beams)) : \E p \in Pick(Codes), form \in Pick(Forms), q \in Pick(DOMAIN beams[k].tab), u \in Pick(1..4), w \in Pick(Windows) :
    LET pol == IF u = 1 THEN p ELSE q
    IN Rec("convert", [k |-> k, pol |-> pol, form |-> form, ok |-> Answers(k, pol, form), win |-> w, table |-> Tab(k, pol)]) /\ UNCHANGED beams

Distances ==
  \E g \in Pick(Given), z \in Pick({5, 60, 83, 117, 250}), lh \in Pick(BOOLEAN) :
    Rec("distances", [given |-> g, res |-> Resolved(g), z |-> z, lh |-> lh]) /\ UNCHANGED beams

Init == beams = <<>> /\ last = [op |-> "init"] /\ step = 0
Next == /\ step < MaxStep /\ step' = step + 1
        /\ IF beams = <<>> THEN New
           ELSE \E r \in {RandomElement(1..16)} :
                  CASE r < 4 -> New [] r < 6 -> AddPol [] r = 6 -> Scribble [] r = 7 -> SetCosmo [] r < 10 -> Integrals
                    [] r < 12 -> Omegas [] r < 14 -> Scalar [] r = 14 -> Convert [] r = 15 -> Distances [] OTHER -> Scalar
Spec == Init /\ [][Next]_vars

(* ----------------------------------------------------------------- properties *)
TypeOK == \A k \in DOMAIN beams : DOMAIN beams[k].tab \subseteq Codes /\ DOMAIN beams[k].tab # {}
(* what is done to one beam does not change another; questions change nothing; a refusal changes nothing *)
Apart == [][/\ \A k \in DOMAIN beams : (beams'[k] # beams[k]) => (last'.op \in {"new", "addpol", "setcosmo"} /\ last'.k = k)
            /\ (last'.op \in {"new", "addpol"} /\ ~last'.ok) => beams' = beams]_vars
(* adding a polarization changes that one only *)
OnlyThat == [][(last'.op = "addpol" /\ last'.ok) =>
               LET k == last'.k IN \A p \in DOMAIN beams[k].tab : p # last'.pol => beams'[k].tab[p] = beams[k].tab[p]]_vars
Flat == last.op = "distances" => (last.res.L + last.res.M + last.res.k = 1000)
Shown == ~Emit \/ PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
