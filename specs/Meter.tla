-------------------------------- MODULE Meter --------------------------------
(* Calculators of thermal noise power.                                        *)
(*                                                                            *)
(* A calculator has a cosmology and a beam, which are used together: a beam   *)
(* brings its own cosmology if the calculator has none, and takes that of the *)
(* calculator otherwise.  The scalar calculated last is kept until another is *)
(* calculated.  Noise is the scalar times 10^6 times a power of two: system   *)
(* temperature 2^T, integration time 2^t, 2^c coherent and 4^i incoherent     *)
(* averages, over a square root of two for one component.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Random, MaxStep, Emit

VARIABLES calc, last, step
vars == <<calc, last, step>>
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Mostly(x, S, n) == IF Random THEN {IF RandomElement(1..n) = 1 THEN RandomElement(S) ELSE x} ELSE S \cup {x}

Cosmos == 1..3
Beams == 1..3
Kinds == {"gauss", "table"}
None == [beam |-> 0, cosmo |-> 0, pol |-> 0, win |-> <<0, 0>>, lh |-> FALSE]
Empty == [cosmo |-> 0, beam |-> 0, scal |-> None]
Rec(op, r) == last' = [op |-> op, a |-> r]

WithBeam(c, b, own) == [c EXCEPT !.beam = b, !.cosmo = IF @ = 0 THEN own ELSE @]
New == \E k \in Pick(1..2), c \in Pick(0..3), b \in Pick(0..3), own \in Pick(Cosmos), form \in Pick({"object", "string", "dict"}) :
  LET e == [Empty EXCEPT !.cosmo = c] IN
  /\ calc' = [calc EXCEPT ![k] = IF b = 0 THEN e ELSE WithBeam(e, b, own)]
  /\ Rec("new", [k |-> k, cosmo |-> c, beam |-> b, own |-> own, form |-> form, now |-> calc'[k]])
SetCosmo == \E k \in Pick(1..2), c \in Pick(Cosmos), form \in Pick({"object", "string", "dict"}) :
  /\ calc' = [calc EXCEPT ![k].cosmo = c]
  /\ Rec("setcosmo", [k |-> k, cosmo |-> c, form |-> form, now |-> calc'[k]])
SetBeam == \E k \in Pick(1..2), b \in Pick(Beams), own \in Pick(Cosmos) :
  /\ calc' = [calc EXCEPT ![k] = WithBeam(@, b, own)]
  /\ Rec("setbeam", [k |-> k, beam |-> b, own |-> own, now |-> calc'[k]])
Scalar == \E k \in Pick(1..2), pol \in Pick(1..2), a \in Pick({0, 1, 13, 20}), n \in Pick({4, 7}), lh \in Mostly(TRUE, {FALSE}, 2) :
  LET ok == calc[k].beam # 0 IN
  /\ calc' = IF ok THEN [calc EXCEPT ![k].scal = [beam |-> calc[k].beam, cosmo |-> calc[k].cosmo, pol |-> pol, win |-> <<a, n>>, lh |-> lh]] ELSE calc
  /\ Rec("scalar", [k |-> k, pol |-> pol, win |-> <<a, n>>, lh |-> lh, ok |-> ok, now |-> calc'[k]])
(* twice the exponent of two of the noise over the scalar and 10^6 *)
Twice(T, t, c, i, comp) == (4 * T - 2 * t - 2 * c - 2 * i) - (IF comp = "abs" THEN 0 ELSE 1)
Noise == \E k \in Pick(1..2), T \in Pick(5..9), t \in Pick(0..8), c \in Pick({0, 0, 1, 3}), i \in Pick({0 - 1, 0, 1, 2}),
            comp \in Mostly("real", {"abs", "imag", "both"}, 2), form \in Mostly("Pk", {"DelSq", "DelSq", "DelSq", "power"}, 2),
            ks \in Pick(0..3), many \in Pick(BOOLEAN), alone \in Pick(BOOLEAN) :
  LET ok == calc[k].scal # None /\ comp # "both" /\ form # "power" /\ (form = "DelSq" => ks > 0) IN
  /\ Rec("noise", [k |-> k, T |-> T, t |-> t, c |-> c, i |-> i, comp |-> comp, form |-> form, ks |-> ks, many |-> many, alone |-> alone, ok |-> ok,
                   twice |-> Twice(T, t, c, IF i < 0 THEN 0 ELSE i, comp), now |-> calc[k]])
  /\ UNCHANGED calc

Init == calc = [k \in 1..2 |-> Empty] /\ last = [op |-> "init", a |-> <<>>] /\ step = 0
Next == /\ step < MaxStep /\ step' = step + 1
        /\ \E r \in {RandomElement(1..12)} :
             CASE r = 1 -> New [] r \in {2, 3} -> SetCosmo [] r \in {4, 5} -> SetBeam [] r \in {6, 7, 8} -> Scalar [] OTHER -> Noise
Spec == Init /\ [][Next]_vars

(* ----------------------------------------------------------------- properties *)
Together == \A k \in 1..2 : calc[k].beam # 0 => calc[k].cosmo # 0
Kept == [][\A k \in 1..2 : calc'[k].scal # calc[k].scal => last'.op \in {"scalar", "new"} /\ last'.a.k = k]_vars
Apart == [][\A k \in 1..2 : calc'[k] # calc[k] => last'.a.k = k]_vars
(* one component is 1 / sqrt 2 of the modulus; averaging four times as much incoherently is averaging twice as much coherently *)
Laws == last.op = "noise" => LET a == last.a IN
  /\ Twice(a.T, a.t, a.c, 0, "abs") - Twice(a.T, a.t, a.c, 0, "real") = 1
  /\ Twice(a.T, a.t, a.c, 1, a.comp) = Twice(a.T, a.t, a.c + 1, 0, a.comp)
  /\ Twice(a.T, a.t + 1, a.c, 0, a.comp) = Twice(a.T, a.t, a.c + 1, 0, a.comp)
Shown == ~Emit \/ PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
