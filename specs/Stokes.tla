-------------------------------- MODULE Stokes --------------------------------
(* Pseudo-Stokes visibilities.                                               *)
(*                                                                           *)
(* A data set has polarizations in some order (-5 xx, -6 yy, -7 xy, -8 yx;   *)
(* 1..4 the pseudo-Stokes ones), a convention, and variants of baselines,    *)
(* times, frequencies and windows.  Samples are integers determined by the   *)
(* data set, polarization and cell, so that results are exact.               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, Randomization

CONSTANTS Random, MaxStep, Emit
VARIABLES sets, last, step
vars == <<sets, last, step>>

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Bern(n) == IF Random THEN {RandomElement(1..n) = 1} ELSE BOOLEAN
Linear == {-5, -6, -7, -8}
NCell == 12
Cells == 0..NCell - 1

(* ------------------------------------------------------------------ samples *)
Hash(ver, p, c, k) == (ver * 101 + p * p * 57 + c * 31 + k * 17 + c * c * 7 + ver * c * 3 + k * c * 5 + ver * p * p * 11) % 1009
Re(ver, p, c) == (Hash(ver, p, c, 1) % 19) - 9
Im(ver, p, c) == (Hash(ver, p, c, 2) % 23) - 11
Flag(ver, p, c) == (Hash(ver, p, c, 3) % 5) = 0
Num(ver, p, c) == LET h == Hash(ver, p, c, 4) % 9 IN IF h = 0 THEN 0 ELSE h
(* the sample of one polarization of a data set: value times 2, flag, number of samples as a fraction *)
Sample(d, p, c) == [re |-> 2 * Re(d.ver, p, c), im |-> 2 * Im(d.ver, p, c), flag |-> Flag(d.ver, p, c), num |-> Num(d.ver, p, c), den |-> 1]

(* -------------------------------------------------------------- combinations *)
Needs(st) == IF st \in {1, 2} THEN <<-5, -6>> ELSE <<-7, -8>>
(* weight of the first and second: real and imaginary part *)
Weight(st, k) == CASE st = 1 -> <<1, 0>> [] st = 2 -> (IF k = 1 THEN <<1, 0>> ELSE <<-1, 0>>) [] st = 3 -> <<1, 0>>
                   [] OTHER -> (IF k = 1 THEN <<0, -1>> ELSE <<0, 1>>)
Times(w, x) == <<w[1] * x.re - w[2] * x.im, w[1] * x.im + w[2] * x.re>>
Combine(st, conv, x, y) ==
  LET a == Times(Weight(st, 1), x)
      b == Times(Weight(st, 2), y)
      m == IF conv = "sum" THEN 2 ELSE 1               \* values are in halves of halves
      lack == x.num = 0 \/ y.num = 0
  IN [re |-> m * (a[1] + b[1]), im |-> m * (a[2] + b[2]), flag |-> x.flag \/ y.flag \/ lack,
      num |-> IF lack THEN 0 ELSE 4 * x.num * y.num, den |-> IF lack THEN 1 ELSE x.num + y.num]
Conv(d) == IF d.conv = "none" THEN "avg" ELSE d.conv
Refused(d, e, st) == \/ d.bls # e.bls \/ d.times # e.times \/ d.freqs # e.freqs \/ d.spw # e.spw
                     \/ Conv(d) # Conv(e) \/ Needs(st)[1] \notin ToSet(d.pols) \/ Needs(st)[2] \notin ToSet(e.pols)

(* ------------------------------------------------------------------ actions *)
Make ==
  \E ac \in Pick({"none", "avg", "sum"}), ab \in Pick({0, 0, 1}), at \in Pick({0, 1}), af \in Pick({0, 1}), as \in Pick({0, 0, 0, 1}), n \in Pick(2..4), how \in Pick({"same", "same", "own", "one"}), ps \in Pick([1..4 -> 1..13]), ver \in Pick(1..300), odd \in Pick(1..12),
     oc \in Pick({"none", "avg", "sum"}) :
    LET P == SetToSeq({x.pols : x \in [pols : {<<-5>>, <<-6>>, <<-7>>, <<-8>>, <<-5, -6>>, <<-6, -5>>, <<-8, -7>>, <<-7, -8>>, <<-5, -7, -8, -6>>,
                                                <<-8, -6, -7, -5>>, <<-5, -6, -7, -8>>, <<-6, -5, 1>>, <<1, -7>>}]})
    IN /\ sets' = [i \in 1..n |-> [pols |-> P[ps[i]], conv |-> IF how = "own" /\ i = 2 THEN oc ELSE ac, ver |-> ver + 37 * i,
                                   bls |-> IF i = 2 /\ odd = 1 THEN 1 - ab ELSE IF i = 2 /\ odd = 4 THEN 2 ELSE ab,
                                   times |-> IF i = 2 /\ odd = 2 THEN 1 - at ELSE at,
                                   freqs |-> IF i = 2 /\ odd = 3 THEN 1 - af ELSE af, spw |-> as]]
       /\ last' = [op |-> "make", sets |-> sets', samples |-> [i \in 1..n |-> [k \in DOMAIN P[ps[i]] |-> [c \in 1..NCell |-> Sample(sets'[i], P[ps[i]][k], c - 1)]]]]
(* a pseudo-Stokes visibility of two of the data sets, or of one of them alone *)
Construct ==
  \E i \in Pick(DOMAIN sets), j \in Pick(DOMAIN sets), self \in Bern(2), st \in Pick(1..4), str \in Bern(2), files \in Bern(10), want \in Bern(2) :
    LET good == {<<x, y, q>> \in (DOMAIN sets) \X (DOMAIN sets) \X (1..4) : ~Refused(sets[x], sets[y], q)} IN
    \E g \in {IF want /\ good # {} THEN RandomElement(good) ELSE <<i, IF self THEN i ELSE j, st>>} :
      LET d == sets[g[1]] e == sets[g[2]] q == g[3] IN
      /\ last' = [op |-> "construct", i |-> g[1], j |-> g[2], st |-> q, str |-> str, files |-> files, refused |-> Refused(d, e, q), conv |-> Conv(d),
                  samples |-> IF Refused(d, e, q) THEN <<>>
                              ELSE [c \in 1..NCell |-> Combine(q, Conv(d), Sample(d, Needs(q)[1], c - 1), Sample(e, Needs(q)[2], c - 1))]]
      /\ UNCHANGED sets
(* the data sets that serve a pseudo-Stokes visibility; each counts by its first polarization *)
Filter ==
  \E st \in Pick(1..4), str \in Bern(2) :
  \E order \in {SetToSortSeq(RandomSubset(RandomElement(1..Len(sets)), DOMAIN sets), LAMBDA x, y : ((x * 7 + st * 3) % 5) < ((y * 7 + st * 3) % 5))} :
    LET at(p) == {k \in DOMAIN order : sets[order[k]].pols[1] = p}
        ok == at(Needs(st)[1]) # {} /\ at(Needs(st)[2]) # {}
    IN /\ last' = [op |-> "filter", st |-> st, str |-> str, order |-> order, refused |-> ~ok,
                   chosen |-> IF ok THEN <<order[Min(at(Needs(st)[1]))], order[Min(at(Needs(st)[2]))]>> ELSE <<>>]
       /\ UNCHANGED sets

Init == sets = <<>> /\ last = [op |-> "init"] /\ step = 0
Next == /\ step < MaxStep /\ step' = step + 1
        /\ IF step = 0 THEN Make ELSE \E k \in {RandomElement(1..5)} : IF k = 1 THEN Filter ELSE Construct
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- properties *)
Did(o) == last.op = o
Good == Did("construct") /\ ~last.refused
(* I and Q (U and V) give the two linear polarizations back *)
Back == Good => \A c \in 1..NCell :
  LET x == Sample(sets[last.i], Needs(last.st)[1], c - 1) y == Sample(sets[last.j], Needs(last.st)[2], c - 1)
      m == IF last.conv = "sum" THEN 2 ELSE 1
      one == Combine(IF last.st \in {1, 2} THEN 1 ELSE 3, last.conv, x, y)
      two == Combine(IF last.st \in {1, 2} THEN 2 ELSE 4, last.conv, x, y)
  IN IF last.st \in {1, 2} THEN one.re + two.re = 2 * m * x.re /\ one.im - two.im = 2 * m * y.im
     ELSE one.re - two.im = 2 * m * x.re /\ one.im + two.re = 2 * m * x.im
(* never fewer flags, never more samples than twice the poorer input's double *)
Flags == Good => \A c \in 1..NCell :
  LET x == Sample(sets[last.i], Needs(last.st)[1], c - 1) y == Sample(sets[last.j], Needs(last.st)[2], c - 1) z == last.samples[c]
  IN /\ x.flag \/ y.flag => z.flag
     /\ z.num = 0 => z.flag
     /\ z.num <= 4 * x.num * z.den /\ z.num <= 4 * y.num * z.den
     /\ (x.num = y.num /\ x.num > 0) => z.num = 2 * x.num * z.den
Chosen == Did("filter") /\ ~last.refused => sets[last.chosen[1]].pols[1] = Needs(last.st)[1] /\ sets[last.chosen[2]].pols[1] = Needs(last.st)[2]
Shown == ~Emit \/ PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
