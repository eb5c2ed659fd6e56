------------------------------ MODULE Dataset ------------------------------
(* A power-spectrum data set: data, settings, user-supplied matrices.       *)
(*                                                                          *)
(* There is no cache in this specification: the answer to a query is a      *)
(* function of the present data, settings and user-supplied matrices only,  *)
(* and a query changes none of them.  The actions say what the settings are *)
(* after every call.  The design of the caches that the implementation may  *)
(* keep behind this interface is checked in DatasetCache.tla.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Random, MaxStep, Emit

VARIABLES s,      \* settings [win, nd, taper, wt, ext, sym]
          rpar,   \* <<weighting, key>> -> parameter set
          um,     \* user-supplied matrices [c, ic : key -> id (0: none), r : set of <<key, weighting, taper, id>>]
          d,      \* data [ver, n, trimmed, rephased, mk]
          last, step
vars == <<s, rpar, um, d, last, step>>

NF == 12
Windows == {<<0, 12>>, <<2, 8>>, <<3, 9>>, <<4, 12>>, <<0, 6>>, <<5, 10>>}
Exts == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, 1>>, <<1, 2>>, <<0, 3>>, <<3, 3>>}
Tapers == {"none", "blackman-harris", "hann"}
Weights == {"identity", "iC", "dayenu"}
Keys == 1..8       \* data set x baseline x polarization
Mats == 1..3
Params == 1..3
(* user matrices are mostly given for two keys, so that they meet *)
UKeys == IF Random THEN {IF RandomElement(1..3) = 1 THEN RandomElement(Keys) ELSE RandomElement({1, 3})} ELSE Keys
NoMat == [c |-> [k \in Keys |-> 0], ic |-> [k \in Keys |-> 0], r |-> {}]
Len12(w) == w[2] - w[1]
Min(a, b) == IF a < b THEN a ELSE b
Clip(e, w) == <<Min(e[1], w[1]), Min(e[2], NF - w[2])>>
Zero == <<0, 0>>

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Rec(op, args, ok) == last' = [op |-> op, args |-> args, ok |-> ok, s |-> s', rpar |-> rpar', um |-> um', d |-> d']

(* ---------------------------------------------------------------- settings *)
SetSpw == \E w \in Pick(Windows), n \in Pick(0..6) :
  LET nn == IF n = 0 \/ n > Len12(w) THEN Len12(w) ELSE n IN
  /\ s' = [s EXCEPT !.win = w, !.nd = nn, !.ext = Clip(@, w)]
  /\ um' = IF w = s.win THEN um ELSE NoMat
  /\ UNCHANGED <<rpar, d>>
  /\ Rec("set_spw", [win |-> w, nd |-> IF nn = n THEN n ELSE 0], TRUE)

SetNdlys == \E n \in Pick(0..13) :
  LET ok == n <= Len12(s.win) IN
  /\ s' = IF ok THEN [s EXCEPT !.nd = IF n = 0 THEN Len12(s.win) ELSE n] ELSE s
  /\ UNCHANGED <<rpar, um, d>>
  /\ Rec("set_Ndlys", [nd |-> n], ok)

SetTaper == \E t \in Pick(Tapers) :
  /\ s' = [s EXCEPT !.taper = t] /\ UNCHANGED <<rpar, um, d>> /\ Rec("set_taper", [taper |-> t], TRUE)

SetWeighting == \E w \in Pick(Weights) :
  /\ s' = [s EXCEPT !.wt = w] /\ UNCHANGED <<rpar, um, d>> /\ Rec("set_weighting", [wt |-> w], TRUE)

SetSym == \E b \in Pick(BOOLEAN) :
  LET ok == ~(b /\ s.ext # Zero) IN
  /\ um.r = {} \/ ~ok \/ b = s.sym       \* whether a user-supplied R survives the change is left open
  /\ s' = IF ok THEN [s EXCEPT !.sym = b] ELSE s
  /\ UNCHANGED <<rpar, um, d>>
  /\ Rec("set_symmetric_taper", [sym |-> b], ok)

SetExt == \E e \in Pick(Exts) :
  LET c == Clip(e, s.win) IN
  /\ um.r = {} \/ c # s.ext \/ e = Zero \/ ~s.sym
  /\ s' = [s EXCEPT !.ext = c, !.sym = IF e # Zero THEN FALSE ELSE @]
  /\ um' = IF c = s.ext THEN um ELSE NoMat
  /\ UNCHANGED <<rpar, d>>
  /\ Rec("set_filter_extension", [ext |-> e], TRUE)

SetRParam == \E k \in UKeys, p \in Pick(Params) :
  /\ s.wt = "dayenu" /\ um.r = {}
  /\ rpar' = [rpar EXCEPT ![k] = p]
  /\ UNCHANGED <<s, um, d>>
  /\ Rec("set_r_param", [k |-> k, p |-> p], TRUE)

(* --------------------------------------------------- user-supplied matrices *)
SetC == \E k \in UKeys, m \in Pick(Mats) :
  /\ um.r = {}
  /\ um' = [um EXCEPT !.c[k] = m, !.ic[k] = 0]     \* the inverse follows the new covariance
  /\ UNCHANGED <<s, rpar, d>>
  /\ Rec("set_C", [k |-> k, m |-> m], TRUE)

SetIC == \E k \in UKeys, m \in Pick(Mats) :
  /\ um.r = {}
  /\ um' = [um EXCEPT !.ic[k] = m]
  /\ UNCHANGED <<s, rpar, d>>
  /\ Rec("set_iC", [k |-> k, m |-> m], TRUE)

SetR == \E k \in UKeys, m \in Pick(Mats) :
  /\ um' = [um EXCEPT !.r = {x \in @ : x[1] # k \/ x[2] # s.wt \/ x[3] # s.taper} \cup {<<k, s.wt, s.taper, m>>}]
  /\ UNCHANGED <<s, rpar, d>>
  /\ Rec("set_R", [k |-> k, m |-> m], TRUE)

ClearAll ==
  /\ um' = NoMat /\ UNCHANGED <<s, rpar, d>> /\ Rec("clear_cache", [keys |-> <<>>], TRUE)

ClearSome == \E k \in UKeys :
  /\ um.r = {}
  /\ um' = [um EXCEPT !.c[k] = 0, !.ic[k] = 0]
  /\ UNCHANGED <<s, rpar, d>>
  /\ Rec("clear_cache", [keys |-> <<k>>], TRUE)

(* -------------------------------------------------------------------- data *)
Data == um' = NoMat /\ UNCHANGED rpar
Broadcast == \E t \in Pick({10, 20, 34, 50, 75}), ws \in Pick({<<>>, <<<<2, 8>>>>, <<<<0, 4>>, <<6, 12>>>>, <<<<5, 10>>>>}),
                unflag \in Pick({FALSE, FALSE, FALSE, TRUE}) :
  /\ d' = [d EXCEPT !.ver = @ + 1] /\ Data /\ UNCHANGED s
  /\ Rec("broadcast", [thresh |-> t, windows |-> ws, unflag |-> unflag], TRUE)

JyToMK == /\ d' = [d EXCEPT !.ver = @ + 1, !.mk = TRUE] /\ Data /\ UNCHANGED s
          /\ Rec("Jy_to_mK", [x |-> 0], TRUE)

Trim == /\ d' = [d EXCEPT !.ver = @ + 1, !.trimmed = TRUE] /\ Data /\ UNCHANGED s
        /\ Rec("trim", [x |-> 0], TRUE)

Rephase == \E i \in Pick(0..1), inplace \in Pick(BOOLEAN) :
  /\ ~d.rephased
  /\ IF inplace THEN d' = [d EXCEPT !.ver = @ + 1, !.rephased = TRUE] /\ Data
     ELSE UNCHANGED <<d, um, rpar>>
  /\ UNCHANGED s
  /\ Rec("rephase", [i |-> i, inplace |-> inplace], TRUE)

CanAdd == ~d.rephased /\ ~d.trimmed /\ ~d.mk /\ d.n < 4
(* another data set is added: the window is the whole band again *)
Add == \E lab \in Pick({"none", "new", "dup"}), w \in Pick(BOOLEAN), sd \in Pick(BOOLEAN), dict \in Pick(BOOLEAN) :
  /\ CanAdd
  /\ d' = [d EXCEPT !.ver = @ + 1, !.n = @ + 1] /\ Data
  /\ s' = [s EXCEPT !.win = <<0, NF>>, !.nd = NF, !.ext = Zero]
  /\ Rec("add", [label |-> lab, wgts |-> w, std |-> sd, dict |-> dict], TRUE)

(* a run of the estimator sets the settings it was asked for and ends in its last window *)
Pspec == \E ws \in Pick({<<<<2, 8>>>>, <<<<3, 9>>, <<2, 8>>>>, <<<<0, 12>>>>, <<<<5, 10>>, <<4, 12>>>>}), t \in Pick(Tapers),
            w \in Pick(Weights), b \in Pick(BOOLEAN), e \in Pick({Zero, Zero, <<1, 2>>, <<0, 1>>}), p \in Pick(Params), n \in Pick({0, 5}), sd \in Pick(1..1000) :
  /\ s.ext # Zero => ~b
  /\ LET lw == ws[Len(ws)] IN
     s' = [win |-> lw, nd |-> IF n = 0 THEN Len12(lw) ELSE n, taper |-> t, wt |-> w, ext |-> Zero, sym |-> b /\ e = Zero]
  /\ um' = NoMat
  /\ rpar' = IF w = "dayenu" THEN [k \in Keys |-> IF k <= 4 THEN p ELSE rpar[k]] ELSE rpar
  /\ UNCHANGED d
  /\ Rec("pspec", [windows |-> ws, taper |-> t, wt |-> w, sym |-> b, ext |-> e, p |-> p, nd |-> n, seed |-> sd], TRUE)

(* ----------------------------------------------------------------- queries *)
(* every kind of question; which ones are asked decides what an implementation may have stored *)
Kinds == {"x", "w", "dx", "C", "Cauto", "Cdsets", "X", "iC", "I", "Y", "R", "q", "qfft", "qlist", "qexact", "G", "H", "Hs", "Hexact",
          "E", "V", "covq", "MW", "delays", "scalar", "sda", "units", "Qalt", "Qten", "beam", "acov"}
Query == \E K \in (IF Random THEN {CASE RandomElement(1..4) = 1 -> Kinds
                                      [] OTHER -> RandomSubset(RandomElement(1..6), Kinds)} ELSE {Kinds}), sd \in Pick(1..3) :
  /\ UNCHANGED <<s, rpar, um, d>>
  /\ Rec("query", [kinds |-> K, seed |-> sd], TRUE)

Init == /\ s = [win |-> <<0, NF>>, nd |-> NF, taper |-> "none", wt |-> "identity", ext |-> Zero, sym |-> TRUE]
        /\ rpar = [k \in Keys |-> 0]
        /\ um = NoMat
        /\ d = [ver |-> 0, n |-> 2, trimmed |-> FALSE, rephased |-> FALSE, mk |-> FALSE]
        /\ last = [op |-> "init"] /\ step = 0

Settings == SetSpw \/ SetNdlys \/ SetTaper \/ SetWeighting \/ SetSym \/ SetExt \/ SetRParam
Matrices == SetC \/ SetIC \/ SetR \/ ClearAll \/ ClearSome
DataOps == Broadcast \/ JyToMK \/ Trim \/ Rephase \/ Add
Next == /\ step < MaxStep
        /\ step' = step + 1
        /\ IF Random
           THEN \E r \in {RandomElement(1..100)}, m \in {RandomElement(1..10)} :
                CASE r <= 8 -> SetSpw
                  [] r <= 12 -> SetNdlys
                  [] r <= 16 -> SetTaper
                  [] r <= 22 -> SetWeighting
                  [] r <= 26 /\ um.r = {} -> SetSym
                  [] r <= 31 /\ (um.r = {} \/ ~s.sym) -> SetExt
                  [] r <= 36 /\ s.wt = "dayenu" /\ um.r = {} -> SetRParam
                  [] r <= 40 /\ um.r = {} -> SetC
                  [] r <= 43 /\ um.r = {} -> SetIC
                  [] r <= 46 /\ um.r = {} -> ClearSome
                  [] r <= 49 -> SetR
                  [] r <= 52 -> ClearAll
                  [] r <= 60 /\ m <= 4 -> Broadcast
                  [] r <= 60 /\ m <= 6 -> JyToMK
                  [] r <= 60 /\ m <= 7 -> Trim
                  [] r <= 60 /\ m <= 8 /\ ~d.rephased -> Rephase
                  [] r <= 60 /\ m <= 10 /\ CanAdd -> Add
                  [] r <= 63 /\ s.ext = Zero -> Pspec
                  [] OTHER -> Query
           ELSE Query \/ Settings \/ Matrices \/ DataOps \/ Pspec
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- invariants *)
TypeOK == /\ s.win \in Windows /\ s.nd \in 1..Len12(s.win) /\ s.taper \in Tapers /\ s.wt \in Weights /\ s.sym \in BOOLEAN
ExtInside == s.win[1] - s.ext[1] >= 0 /\ s.win[2] + s.ext[2] <= NF
SymOnlySquare == s.sym => s.ext = Zero
Shown == ~Emit \/ PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
