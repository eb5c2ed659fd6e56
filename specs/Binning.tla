------------------------------ MODULE Binning ------------------------------
(* Re-binning of power spectra: folding, bins of delay, and spherical bins.  *)
(*                                                                           *)
(* The modes of a window are its delays, later sums of them.  A mode is      *)
(* [num, den, mem]: the weights of the original delays in it (mem, over      *)
(* den), and its offset from zero delay num/den.  With a baseline-pair it    *)
(* has a wave number, k^2 = (Q num/den)^2 + (C sep)^2, in thousandths of     *)
(* h/Mpc.  Spherical bins (lo, hi] take, for every window, time and          *)
(* polarization, the modes of all pairs whose k is inside.                   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, Randomization

CONSTANTS Random, MaxStep, Emit,
          Q,        \* Q[s + 1]: k of a step in delay of window s, in 1/10 units
          C         \* C[s + 1]: k of a separation of a metre, in 1/100000 units
VARIABLES obj, modes, last, step
vars == <<obj, modes, last, step>>

Nd == <<6, 4, 8, 7, 4, 12>>
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Bern(n) == IF Random THEN {RandomElement(1..n) = 1} ELSE BOOLEAN
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Ends == <<<<1, 1>>, <<1, 2>>, <<2, 3>>, <<4, 5>>, <<2, 1>>, <<5, 4>>, <<1, 4>>, <<3, 3>>>>   \* baselines of the pairs
Sum(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)

Zero(s) == Nd[s + 1] \div 2
Plain(s) == [i \in 1..Nd[s + 1] |-> [num |-> i - 1 - Zero(s), den |-> 1, mem |-> <<<<i, 1>>>>]]
ModesOf(s) == modes[s + 1]
Folded(s) == SelectSeq(ModesOf(s), LAMBDA m : m.num > 0)
Symmetric(s) == Folded(s) # <<>> /\ \A m \in ToSet(Folded(s)) : \E x \in ToSet(ModesOf(s)) : x.num * m.den = 0 - m.num * x.den

(* ------------------------------------------------------------ wave numbers *)
Kpar(s, m) == (Abs(m.num) * Q[s + 1]) \div (10 * m.den)
Kperp(o, s, b) == ((o.lens[Ends[b + 1][1]] + o.lens[Ends[b + 1][2]]) * C[s + 1]) \div 200000
K2(o, s, b, m) == Kpar(s, m) * Kpar(s, m) + Kperp(o, s, b) * Kperp(o, s, b)
Grid == [perp |-> <<40, 410, 1120>>, par |-> <<0, 530, 1390, 2210>>]   \* of exact window functions
Grid2(i, j) == Grid.perp[i] * Grid.perp[i] + Grid.par[j] * Grid.par[j]
In(k2, b) == (b[1] < 0 \/ k2 > b[1] * b[1]) /\ (b[2] >= 0 /\ k2 <= b[2] * b[2])
(* edges that no mode is near: rounding must not matter *)
Ks == UNION {{K2(obj, s, b, m) : b \in obj.pairs, m \in ToSet(ModesOf(s)) \cup ToSet(Plain(s))} : s \in ToSet(obj.spws)}
      \cup {Grid2(i, j) : i \in 1..3, j \in 1..4}
Safe(e, ks) == e < 0 \/ \A k \in ks : Abs(k - e * e) > 10 * e + 50
Edges(ks) == {e \in {0 - 31} \cup {61 * i : i \in 1..52} : Safe(e, ks)}

(* ----------------------------------------------------------------- objects *)
Make ==
  \E n \in Pick({1, 1, 2, 3}), a \in Pick(0..5), nb \in Pick({1, 2, 2, 3, 4}), nt \in Pick({1, 2, 3}), np \in Pick({1, 1, 2}),
     win \in Pick({"no", "square", "square", "exact"}), cov \in Bern(2), how \in Pick({"uniform", "err", "cov", "any"}), st \in Bern(2),
     len \in Pick([1..5 -> {0, 14, 30, 120, 300, 700, 1500, 2500, 4000}]), rows \in Pick({"asis", "order", "mixed"}) :
  \E pairs \in {IF win = "exact" THEN RandomSubset(IF nb > 3 THEN 3 ELSE nb, {0, 3, 5, 7}) ELSE RandomSubset(nb, 0..7)}, times \in {RandomSubset(nt, 0..6)}, pols \in {RandomSubset(np, 0..3)} :
  \E dead \in {RandomSubset(RandomElement({0, 0, 1, 2, 4}), {<<s, b, t, p>> : s \in 0..5, b \in pairs, t \in times, p \in pols})} :   \* (exact windows: redundant pairs)
    /\ obj' = [spws |-> [i \in 1..n |-> (a + 5 * i) % 6], lens |-> IF win = "exact" THEN [len EXCEPT ![5] = len[4]] ELSE len, pairs |-> pairs, times |-> times, pols |-> pols, win |-> win,
               cov |-> cov \/ how = "cov", stats |-> st \/ how = "err", how |-> how, rows |-> rows, folded |-> FALSE, binned |-> FALSE,
               dead |-> IF win = "exact" THEN {} ELSE dead]
    /\ modes' = [i \in 1..6 |-> Plain(i - 1)]
    /\ last' = [op |-> "make", obj |-> obj']

Fold ==
  /\ obj' = [obj EXCEPT !.folded = TRUE]
  /\ modes' = [i \in 1..6 |-> Folded(i - 1)]
  /\ last' = [op |-> "fold"]

(* ------------------------------------------------------------ bins of delay *)
DelayBins(s, kernel, zker) ==
  LET z == Zero(s) + 1
      n == Nd[s + 1]
      h == Len(zker) \div 2
      nk == Len(kernel)
      cnt == (n - z - h) \div nk                         \* whole bins on the positive side; as many on the negative one
      bin(from, ker) == [num |-> Sum([i \in DOMAIN ker |-> ker[i] * (from + i - 1 - z)]), den |-> Sum(ker),
                         mem |-> [i \in DOMAIN ker |-> <<from + i - 1, ker[i]>>]]
  IN [i \in 1..2 * cnt + 1 |->
       IF i <= cnt THEN bin(z - h - nk * (cnt - i + 1), kernel)
       ELSE IF i = cnt + 1 THEN bin(z - h, zker)
       ELSE bin(z + h + 1 + nk * (i - cnt - 2), kernel)]
Bin ==
  \E len \in Pick({1, 2, 3, 4}), k \in Pick([1..4 -> 0..3]), zk \in Pick({<<1>>, <<1, 2, 1>>, <<0, 1, 0>>, <<3, 1, 3>>, <<1, 0, 2, 0, 1>>}), wc \in Bern(2) :
    LET ok == \A s \in ToSet(obj.spws) : len <= Nd[s + 1] \div 2
        nk == IF ok THEN len ELSE 1
        ker == [i \in 1..nk |-> IF Sum(SubSeq(k, 1, nk)) = 0 THEN 1 ELSE k[i]]
        zker == IF \A s \in ToSet(obj.spws) : Len(zk) \div 2 < Nd[s + 1] - Zero(s) THEN zk ELSE <<1>>
    IN /\ modes' = [i \in 1..6 |-> DelayBins(i - 1, ker, zker)]
       /\ obj' = [obj EXCEPT !.binned = TRUE]
       /\ last' = [op |-> "bin", kernel |-> ker, zker |-> zker, bycov |-> wc /\ obj.cov, modes |-> [i \in DOMAIN obj.spws |-> modes'[obj.spws[i] + 1]]]

(* ------------------------------------------------------------ spherical bins *)
Which(k2, bins) == LET S == {i \in DOMAIN bins : In(k2, bins[i])} IN IF S = {} THEN 0 ELSE Min(S)
Members(s, bins, i) == {<<b, j>> \in obj.pairs \X DOMAIN ModesOf(s) : In(K2(obj, s, b, ModesOf(s)[j]), bins[i])}
Columns(s, b, bins) == [j \in DOMAIN Plain(s) |-> Which(K2(obj, s, b, Plain(s)[j]), bins)]
Sphere ==
  LET ks == Ks IN
  \E n \in Pick({2, 3, 4, 6, 9}), gap \in Bern(3), th \in Pick(0..3), th0 \in Pick(0..12), thw \in Pick({5, 7, 11, 13}), thn \in Pick(2..5),
     h \in Bern(4), avg \in Pick(0..5) :
  \E es \in {SetToSortSeq(RandomSubset(IF n > Cardinality(Edges(ks)) THEN Cardinality(Edges(ks)) ELSE n, Edges(ks)), <)} :
    LET all == [i \in 1..Len(es) - 1 |-> <<es[i], es[i + 1]>>]
        bins == IF gap /\ obj.win # "exact" THEN SelectSeq(all, LAMBDA x : (x[1] \div 61) % 3 # 0) ELSE all
        tb == [i \in 1..thn |-> <<61 * (th0 + (i - 1) * thw) - 30, 61 * (th0 + i * thw) - 30>>]
        given == th = 0 /\ \A i \in 1..thn : Safe(tb[i][1], ks) /\ Safe(tb[i][2], ks)
        theory == IF given THEN tb ELSE bins
        how == IF obj.how = "any" THEN (IF obj.stats /\ n % 2 = 0 THEN "err" ELSE IF obj.cov /\ n > 3 THEN "cov" ELSE "uniform") ELSE obj.how
    IN /\ last' = IF bins = <<>> THEN [op |-> "skip"]
                  ELSE [op |-> "sphere", bins |-> bins, given |-> given, theory |-> theory, how |-> how, h |-> h, avg |-> avg,
                        members |-> [i \in DOMAIN obj.spws |-> [j \in DOMAIN bins |-> Members(obj.spws[i], bins, j)]],
                        columns |-> [i \in DOMAIN obj.spws |-> {<<b, Columns(obj.spws[i], b, theory)>> : b \in obj.pairs}],
                        grid |-> [i \in 1..3 |-> [j \in 1..4 |-> Which(Grid2(i, j), theory)]]]
       /\ UNCHANGED <<obj, modes>>

Init == obj = [spws |-> <<>>] /\ modes = [i \in 1..6 |-> Plain(i - 1)] /\ last = [op |-> "init"] /\ step = 0
Next == /\ step < MaxStep /\ step' = step + 1
        /\ IF step = 0 THEN Make
           ELSE \E k \in {RandomElement(1..8)} :
                  CASE k < 3 /\ ~obj.folded /\ (\A s \in ToSet(obj.spws) : Symmetric(s)) -> Fold [] k \in {3, 4} /\ ~obj.folded /\ ~obj.binned -> Bin [] OTHER -> Sphere
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- properties *)
Did(o) == last.op = o
Once == Did("sphere") => \A i \in DOMAIN last.members : \A j, k \in DOMAIN last.bins : j # k => last.members[i][j] \cap last.members[i][k] = {}
(* contiguous bins lose no mode between their ends *)
None == Did("sphere") => LET n == Len(last.bins) IN
  (\A j \in 1..n - 1 : last.bins[j][2] = last.bins[j + 1][1]) =>
    \A i \in DOMAIN obj.spws : UNION {last.members[i][j] : j \in 1..n} =
      {<<b, j>> \in obj.pairs \X DOMAIN ModesOf(obj.spws[i]) : In(K2(obj, obj.spws[i], b, ModesOf(obj.spws[i])[j]), <<last.bins[1][1], last.bins[n][2]>>)}
(* a mode and its mirror image are in one bin *)
Mirror == Did("sphere") => \A i \in DOMAIN obj.spws : \A j \in DOMAIN last.bins : \A x \in last.members[i][j] :
  \A y \in DOMAIN ModesOf(obj.spws[i]) :
    LET M == ModesOf(obj.spws[i]) IN M[y].num * M[x[2]].den = 0 - M[x[2]].num * M[y].den => <<x[1], y>> \in last.members[i][j]
Used(m) == {x[1] : x \in ToSet(m.mem)}
DelayOnce == Did("bin") => \A s \in ToSet(obj.spws) : LET M == ModesOf(s) IN
  /\ \A i, j \in DOMAIN M : i # j => Used(M[i]) \cap Used(M[j]) = {}
  /\ \A i \in DOMAIN M : Used(M[i]) \subseteq 1..Nd[s + 1]
  /\ Reverse(last.kernel) = last.kernel => \A i \in DOMAIN M : M[i].num = 0 - M[Len(M) + 1 - i].num
  /\ \A d \in (1..Nd[s + 1]) \ UNION {Used(M[i]) : i \in DOMAIN M} : Abs(d - 1 - Zero(s)) > (Len(last.zker) \div 2) + Len(last.kernel) * ((Len(M) - 1) \div 2)
Shown == ~Emit \/ PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
