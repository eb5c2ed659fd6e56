-------------------------------- MODULE Noise --------------------------------
(* Analytic noise errors of power spectra from auto-correlations.            *)
(*                                                                           *)
(* A spectrum is that of a baseline-pair, of a time pair, window and         *)
(* polarization.  Its noise comes from the system temperatures of the two    *)
(* antennas of its first baseline at its first time and of the two antennas  *)
(* of its second baseline at its second time, over the channels flagged for  *)
(* neither of them; if that leaves none, from the nearest time at which it   *)
(* leaves some.  Channels are distinguished by their class (index modulo 3). *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, Randomization

CONSTANTS Random, MaxStep, Emit
VARIABLES obj, autos, stats, last, step
vars == <<obj, autos, stats, last, step>>

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Bern(n) == IF Random THEN {RandomElement(1..n) = 1} ELSE BOOLEAN
Abs(x) == IF x < 0 THEN 0 - x ELSE x
(* antennas of the baseline-pairs, samples of the time pairs, first polarizations *)
Ends == <<<<1, 2, 1, 2>>, <<1, 2, 2, 3>>, <<2, 3, 3, 4>>, <<1, 3, 2, 4>>, <<2, 3, 1, 2>>, <<2, 4, 1, 3>>, <<1, 2, 1, 3>>, <<3, 4, 3, 4>>>>
Tp == <<<<0, 0>>, <<1, 1>>, <<2, 2>>, <<3, 3>>, <<0, 1>>, <<1, 2>>, <<0, 2>>>>
Auto == <<0, 1, 0, 2>>
Ants == 1..4
Times == 0..5          \* integrations of the auto-correlations
Classes == 0..2
Pos(a, t) == a.pos[t + 1]

AutoKeys == Ants \X Times \X (0..2)
NewAutos(keep) ==
  \E steps \in Pick([1..5 -> {1, 1, 2, 3}]), dens \in Pick({0, 10, 40, 75, 90}), ver \in Pick(1..1000), order \in Pick({"bl", "time"}),
     wrap \in Pick(0..6), extra \in Bern(2) :
  \E whole \in {RandomSubset((dens * Cardinality(AutoKeys)) \div 150, AutoKeys)} :
  \E part \in {RandomSubset((dens * Cardinality(AutoKeys)) \div 50, AutoKeys \X Classes)} :
    autos' = [pos |-> IF keep THEN autos.pos ELSE <<0, steps[1], steps[1] + steps[2], steps[1] + steps[2] + steps[3], steps[1] + steps[2] + steps[3] + steps[4],
                        steps[1] + steps[2] + steps[3] + steps[4] + steps[5]>>,
              ver |-> ver, order |-> order, wrap |-> wrap, extra |-> extra, flags |-> part \cup (whole \X Classes)]

Make ==
  \E n \in Pick({1, 1, 2, 3}), a \in Pick(0..4), nb \in Pick({1, 2, 3, 4}), nt \in Pick({1, 2, 3, 4}), np \in Pick({1, 2, 3}),
     cov \in Bern(4), win \in Bern(4), st \in Bern(2), rows \in Pick({"asis", "order", "mixed"}), taper \in Pick({"none", "blackmanharris", "hamming"}) :
  \E pairs \in {RandomSubset(nb, 0..7)}, times \in {RandomSubset(nt, 0..6)}, pols \in {RandomSubset(np, 0..3)} :
    /\ obj' = [spws |-> [i \in 1..n |-> (a + 2 * i) % 5], pairs |-> pairs, times |-> times, pols |-> pols, cov |-> cov, win |-> win, stats |-> st,
               rows |-> rows, taper |-> taper, folded |-> FALSE]
    /\ NewAutos(FALSE)
    /\ stats' = [pn |-> FALSE, psn |-> FALSE, own |-> st]
    /\ last' = [op |-> "make", obj |-> obj',
                autos |-> [pos |-> autos'.pos, ver |-> autos'.ver, order |-> autos'.order, wrap |-> autos'.wrap, extra |-> autos'.extra,
                           flags |-> autos'.flags]]

(* channels left to a baseline (side k of pair b) at integration t *)
Left(a, b, k, t, q) == Classes \ ({c \in Classes : <<<<Ends[b + 1][2 * k - 1], t, q>>, c>> \in a.flags \/ <<<<Ends[b + 1][2 * k], t, q>>, c>> \in a.flags})
Held(ts, k) == {Tp[t + 1][k] : t \in ts}
Live(a, b, k, ts, q) == {t \in Held(ts, k) : Left(a, b, k, t, q) # {}}
Dist(a, t, u) == Abs(Pos(a, t) - Pos(a, u))
(* the integrations that may serve for integration t *)
Sources(a, b, k, ts, q, t) == LET L == Live(a, b, k, ts, q) IN {u \in L : \A v \in L : Dist(a, t, u) <= Dist(a, t, v)}
(* do the flags of the two baselines leave no channel in common at any time? *)
Apart(a, b, ts, q) == \A t \in ts : Left(a, b, 1, Tp[t + 1][1], q) \cap Left(a, b, 2, Tp[t + 1][2], q) = {}
Cell(a, b, t, p) ==
  LET q == Auto[p + 1]
      src(k) == {<<u, Left(a, b, k, u, q)>> : u \in Sources(a, b, k, obj.times, q, Tp[t + 1][k])}
      none == Live(a, b, 1, obj.times, q) = {} \/ Live(a, b, 2, obj.times, q) = {}
  IN [b |-> b, t |-> t, p |-> p, kind |-> IF none THEN "none" ELSE IF Apart(a, b, obj.times, q) THEN "unclear" ELSE "some", one |-> src(1), two |-> src(2)]
Cells == {Cell(autos, b, t, p) : b \in obj.pairs, t \in obj.times, p \in obj.pols}

Noise ==
  \E kind \in Pick({"pn", "psn", "both", "both"}), corr \in Bern(2), h \in Bern(4), str \in Bern(2), pre \in Bern(2), bare \in Bern(2) :
    LET p == pre /\ stats.pn
        k == IF p THEN "psn" ELSE kind
    IN /\ stats' = [stats EXCEPT !.pn = @ \/ k # "psn", !.psn = @ \/ k # "pn"]
       /\ last' = [op |-> "noise", kind |-> k, corr |-> corr, h |-> ~h, str |-> str, pre |-> p, bare |-> bare, cells |-> IF p THEN {} ELSE Cells]
       /\ UNCHANGED <<obj, autos>>
(* expected noise at a given system temperature *)
Generate ==
  \E how \in Pick({"number", "times", "pairs"}), form \in Pick({"Pk", "DelSq"}), comp \in Pick({"real", "imag", "abs"}), h \in Bern(3), all \in Bern(2),
     ver \in Pick(1..1000) :
  \E sub \in {RandomSubset(1, obj.pairs)} :
    /\ last' = [op |-> "generate", how |-> how, form |-> form, comp |-> comp, h |-> ~h, ver |-> ver, all |-> all, sub |-> IF all THEN obj.pairs ELSE sub]
    /\ UNCHANGED <<obj, autos, stats>>
Refresh == NewAutos(TRUE) /\ UNCHANGED <<obj, stats>> /\
  last' = [op |-> "autos", autos |-> [pos |-> autos'.pos, ver |-> autos'.ver, order |-> autos'.order, wrap |-> autos'.wrap, extra |-> autos'.extra,
                                      flags |-> autos'.flags]]
(* auto-correlations in Jy to system temperatures: each polarization by its own beam *)
Convert ==
  \E beam \in Pick({"base", "spectra"}), order \in Pick({"bl", "time"}), ver \in Pick(1..1000), bare \in Bern(2) :
  \E pols \in {SetToSortSeq(RandomSubset(RandomElement(1..4), {"xx", "yy", "xy", "pI", "pQ"}), LAMBDA x, y : RandomElement(1..2) = 1)} :
    LET kept == ToSet(pols) \cap {"xx", "yy", "pI"}
        ok == kept # {} /\ ("pQ" \in ToSet(pols) => "pI" \in ToSet(pols))
    IN /\ last' = IF ok THEN [op |-> "tsys", pols |-> pols, kept |-> kept, beam |-> beam, order |-> order, ver |-> ver, bare |-> bare] ELSE [op |-> "skip"]
       /\ UNCHANGED <<obj, autos, stats>>
Some(S) == RandomSubset(RandomElement(1..Cardinality(S)), S)
Select ==
  \E pairs \in {Some(obj.pairs)}, times \in {Some(obj.times)}, pols \in {Some(obj.pols)}, ws \in {SetToSortSeq(Some(DOMAIN obj.spws), <)} :
    /\ obj' = [obj EXCEPT !.pairs = pairs, !.times = times, !.pols = pols, !.spws = [i \in DOMAIN ws |-> obj.spws[ws[i]]]]
    /\ last' = [op |-> "select", spws |-> ws, pairs |-> pairs, times |-> times, pols |-> pols]
    /\ UNCHANGED <<autos, stats>>
(* the mean of some pairs goes by the first of them *)
Average ==
  \E g \in {SetToSortSeq(Some(obj.pairs), <)} :
    /\ obj' = [obj EXCEPT !.pairs = (obj.pairs \ ToSet(g)) \cup {g[1]}]
    /\ last' = [op |-> "average", group |-> g]
    /\ stats' = [pn |-> FALSE, psn |-> FALSE, own |-> FALSE]   \* not asked to average them
    /\ UNCHANGED autos
Fold == obj' = [obj EXCEPT !.folded = TRUE] /\ last' = [op |-> "fold"] /\ UNCHANGED <<autos, stats>>

Init == /\ obj = [spws |-> <<>>] /\ autos = [pos |-> <<>>] /\ stats = [pn |-> FALSE] /\ last = [op |-> "init"] /\ step = 0
Next == /\ step < MaxStep /\ step' = step + 1
        /\ IF step = 0 THEN Make
           ELSE \E k \in {RandomElement(1..16)} :
                  CASE k <= 2 -> Refresh [] k = 3 -> Select [] k = 4 -> Average [] k = 5 /\ ~obj.folded -> Fold [] k \in {6, 7} -> Generate [] k = 8 -> Convert [] OTHER -> Noise
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- properties *)
Did(o) == last.op = o
(* what serves a spectrum was measured by its own antennas, in its own polarization, at times of the same baseline, unflagged *)
Own == Did("noise") => \A c \in last.cells : c.kind # "none" =>
  /\ c.one # {} /\ c.two # {}
  /\ \A x \in c.one : x[1] \in Held(obj.times, 1) /\ x[2] # {}
  /\ \A x \in c.two : x[1] \in Held(obj.times, 2) /\ x[2] # {}
(* with something unflagged at its own times, nothing else serves it *)
Exact == Did("noise") => \A c \in last.cells :
  /\ Left(autos, c.b, 1, Tp[c.t + 1][1], Auto[c.p + 1]) # {} /\ c.kind # "none" => {x[1] : x \in c.one} = {Tp[c.t + 1][1]}
  /\ Left(autos, c.b, 2, Tp[c.t + 1][2], Auto[c.p + 1]) # {} /\ c.kind # "none" => {x[1] : x \in c.two} = {Tp[c.t + 1][2]}
(* every cell has one *)
All == Did("noise") /\ ~last.pre => Cardinality(last.cells) = Cardinality(obj.pairs) * Cardinality(obj.times) * Cardinality(obj.pols)
(* the order of antennas in a baseline doesn't matter: the two sides of a pair with itself agree at equal times *)
Alike == Did("noise") => \A c \in last.cells :
  (c.b \in {0, 7} /\ Tp[c.t + 1][1] = Tp[c.t + 1][2] /\ \A t \in obj.times : Tp[t + 1][1] = Tp[t + 1][2]) => c.one = c.two
Shown == ~Emit \/ PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
