------------------------------ MODULE Broadcast ------------------------------
(* Flag broadcasting over the waterfalls of a collection of data sets.       *)
(*                                                                           *)
(* A waterfall is the set of flagged samples <<time, channel>> of one data   *)
(* set, baseline and polarization; a baseline may lack some times.  Within a *)
(* window a channel flagged in more than a threshold fraction of the times   *)
(* is flagged at all times; every time that still has other flags there is   *)
(* flagged across the window.  Times flagged across the whole band do not    *)
(* count.  Windows are worked through one after the other.                   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, Randomization

CONSTANTS NT, NF, Keys, Random, MaxStep, Emit, Full

VARIABLES held,  \* key -> times the baseline has
          fl,    \* key -> flagged samples
          last, step
vars == <<held, fl, last, step>>

Chans == 0..NF - 1
Times == 0..NT - 1
Windows == {w \in (0..NF) \X (0..NF) : w[1] < w[2]}
Thresholds == {<<0, 1>>, <<1, 5>>, <<1, 4>>, <<1, 3>>, <<2, 5>>, <<1, 2>>, <<3, 5>>, <<2, 3>>, <<3, 4>>, <<1, 1>>}
In(c, w) == w[1] <= c /\ c < w[2]
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S

WholeTime(h, F, t) == \A c \in Chans : <<t, c>> \in F
One(h, F, w, th) ==
  LET live == {t \in h : ~WholeTime(h, F, t)}
      n(c) == Cardinality({t \in live : <<t, c>> \in F})
      over == {c \in Chans : In(c, w) /\ n(c) * th[2] > th[1] * Cardinality(live)}
      spoilt == {t \in h : \E c \in Chans : In(c, w) /\ c \notin over /\ <<t, c>> \in F}
  IN IF live = {} THEN F
     ELSE F \cup (h \X over) \cup {x \in spoilt \X Chans : In(x[2], w)}
RECURSIVE Over(_, _, _, _)
Over(h, F, ws, th) == IF ws = <<>> THEN F ELSE Over(h, One(h, F, Head(ws), th), Tail(ws), th)
Clear(F, ws) == {x \in F : ~\E i \in DOMAIN ws : In(x[2], ws[i])}

Separable(h, F, w) ==
  LET W == {c \in Chans : In(c, w)}
      T == {t \in h : {t} \X W \subseteq F}
      C == {c \in W : h \X {c} \subseteq F}
  IN \A x \in F : In(x[2], w) => (x[1] \in T \/ x[2] \in C)
Disjoint(ws) == \A i, j \in DOMAIN ws : i # j => ws[i][2] <= ws[j][1] \/ ws[j][2] <= ws[i][1]

(* ----------------------------------------------------------------- actions *)
Broadcast(ws, th) ==
  /\ fl' = [k \in Keys |-> Over(held[k], fl[k], ws, th)] /\ UNCHANGED held
  /\ last' = [op |-> "broadcast", windows |-> ws, thresh |-> th, before |-> fl, held |-> held, after |-> fl']
Unflag(ws) ==
  /\ fl' = [k \in Keys |-> Clear(fl[k], ws)] /\ UNCHANGED held
  /\ last' = [op |-> "unflag", windows |-> ws, before |-> fl, held |-> held, after |-> fl']
(* new flags, in a number of styles: few, many, whole times, whole channels *)
NewFlags(h) ==
  LET style == RandomElement(1..5)
      some == RandomSubset(RandomElement(0..3), Times) \cap h
      rows == IF style \in {2, 4, 5} THEN some \X Chans ELSE {}
      cols == IF style \in {3, 4} THEN h \X RandomSubset(RandomElement(0..2), Chans) ELSE {}
      n == IF style = 5 THEN RandomElement(0..NT * NF) ELSE RandomElement(0..NT + 3)
      spot == RandomSubset(IF n > NT * NF THEN NT * NF ELSE n, Times \X Chans)
  IN (rows \cup cols \cup spot) \cap (h \X Chans)
Flag ==
  /\ \E B \in {[b \in {(k + 1) \div 2 : k \in Keys} |-> IF RandomElement(1..4) = 1 THEN RandomSubset(RandomElement(1..NT), Times) ELSE Times]} :
     \E H \in {[k \in Keys |-> B[(k + 1) \div 2]]} :     \* keys 2n-1 and 2n are the polarizations of one baseline
       /\ held' = H
       /\ \E F \in {[k \in Keys |-> NewFlags(H[k])]} : fl' = F
  /\ last' = [op |-> "flag", held |-> held', after |-> fl']

WinSeqs == {<<w>> : w \in Windows} \cup {<<v, w>> : v \in Windows, w \in Windows}
Init == /\ held = [k \in Keys |-> Times] /\ last = [op |-> "init"] /\ step = 0
        /\ IF Full THEN fl \in [Keys -> SUBSET (Times \X Chans)] ELSE fl = [k \in Keys |-> {}]
Next ==
  /\ step < MaxStep
  /\ step' = step + 1
  /\ IF Random
     THEN \E r \in {RandomElement(1..10)}, n \in {RandomElement(0..3)}, th \in {RandomElement(Thresholds)},
             w1 \in {RandomElement(Windows)}, w2 \in {RandomElement(Windows)}, w3 \in {RandomElement(Windows)} :
            LET ws == IF n = 0 THEN <<<<0, NF>>>> ELSE SubSeq(<<w1, w2, w3>>, 1, n)
            IN CASE step % 3 = 0 -> Flag
                 [] r = 1 -> Unflag(ws)
                 [] OTHER -> Broadcast(ws, th)
     ELSE \E ws \in WinSeqs : Unflag(ws) \/ \E th \in Thresholds : Broadcast(ws, th)
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- invariants *)
Did == last.op = "broadcast"
Monotone == Did => \A k \in Keys : last.before[k] \subseteq fl[k]
Inside == last.op \in {"broadcast", "unflag"} => \A k \in Keys : \A x \in (fl[k] \ last.before[k]) \cup (last.before[k] \ fl[k]) :
            \E i \in DOMAIN last.windows : In(x[2], last.windows[i])
MadeSeparable == (Did /\ Disjoint(last.windows)) =>
            \A k \in Keys : \A i \in DOMAIN last.windows : Separable(held[k], fl[k], last.windows[i])
Settled == (Did /\ Len(last.windows) = 1) =>   \* nothing is left to do
            \A k \in Keys : \A t \in held[k] : \A c \in Chans :
               (In(c, last.windows[1]) /\ <<t, c>> \in fl[k]) =>
                 \/ \A t2 \in held[k] : <<t2, c>> \in fl[k]
                 \/ \A c2 \in Chans : In(c2, last.windows[1]) => <<t, c2>> \in fl[k]
NoNeed == (Did /\ \A k \in Keys : last.before[k] = {}) => \A k \in Keys : fl[k] = {}
Shown == ~Emit \/ PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
