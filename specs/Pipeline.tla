------------------------------ MODULE Pipeline ------------------------------
(* The end-to-end run: data sets in, spectra in a container file out.        *)
(*                                                                           *)
(* pool holds data sets (baselines, polarizations, integrations on a common  *)
(* grid, perhaps a dead antenna); file maps <<group, name>> to the number of *)
(* the spectrum stored there last.  A run takes some data sets and options,  *)
(* prepares the data sets (trimming, interleaving), goes through the pairs   *)
(* of data sets in order and stores one spectrum for every pair that has     *)
(* usable baseline-pairs, until the first pair that cannot be done.          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, Randomization

CONSTANTS Random, MaxStep, Emit

VARIABLES pool, file, count, last, step
vars == <<pool, file, count, last, step>>

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
NF == 8
Ants == 0..3
Up == {<<a, b>> \in Ants \X Ants : a < b}
Flip(p) == <<p[2], p[1]>>
Along(p) == IF p[1] <= p[2] THEN p ELSE Flip(p)
Len4(p) == IF p[1] <= p[2] THEN p[2] - p[1] ELSE p[1] - p[2]     \* antennas stand in a row: length and class at once

(* ---------------------------------------------------------------- a data set *)
Avail(d, p) == Along(p) \in {Along(q) : q \in d.bls} \/ p[1] = p[2]            \* every auto-correlation is there
Live(d, autos, crosses) ==   \* antennas with at least one unflagged baseline of the kinds asked for
  {a \in Ants : a # d.dead /\ (\/ autos
                               \/ crosses /\ \E q \in d.bls : a \in {q[1], q[2]} /\ d.dead \notin {q[1], q[2]})}
TimesOf(d) == [i \in 1..d.nt |-> d.t0 + i - 1]

(* ------------------------------------------------------------------ a request *)
Sets(r) == [i \in DOMAIN r.sets |-> pool[r.sets[i]]]
Common(r) == {t \in 0..20 : \A i \in DOMAIN r.sets : t \in Range(TimesOf(pool[r.sets[i]]))}
Trimmed(r, i) == IF r.trim THEN SelectSeq(TimesOf(pool[r.sets[i]]), LAMBDA t : t \in Common(r)) ELSE TimesOf(pool[r.sets[i]])
Half(s, k) == [i \in 1..Len(s) \div 2 |-> s[2 * i - 2 + k]]
(* what the run works on: data set of the pool and integrations, one entry or two halves of one *)
Work(r) == IF r.inter THEN <<[d |-> r.sets[1], t |-> Half(Trimmed(r, 1), 1)], [d |-> r.sets[1], t |-> Half(Trimmed(r, 1), 2)]>>
           ELSE [i \in DOMAIN r.sets |-> [d |-> r.sets[i], t |-> Trimmed(r, i)]]

Number(k) == <<"0", "1", "2", "3">>[k + 1]
RECURSIVE Distinct(_, _)
Distinct(ls, done) ==    \* a label used before gets a number
  IF ls = <<>> THEN done
  ELSE LET l == Head(ls)
           free == IF l \notin Range(done) THEN l
                   ELSE IF l \o ".1" \notin Range(done) THEN l \o ".1" ELSE l \o ".2"
       IN Distinct(Tail(ls), Append(done, free))
Given(r) == IF r.labels = <<>> THEN [i \in DOMAIN r.sets |-> "dset" \o Number(i - 1)] ELSE r.labels
Labels(r) == Distinct(IF r.inter THEN Append(Given(r), "dset1") ELSE Given(r), <<>>)
RECURSIVE Join(_)
Join(ls) == IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o "_" \o Join(Tail(ls))
Group(r) == IF r.group = "none" THEN Join(Labels(r)) ELSE r.group
Name(r, p) == Labels(r)[p[1]] \o "_x_" \o Labels(r)[p[2]] \o r.ext
Combos(n) == IF n = 1 THEN <<<<1, 1>>>> ELSE IF n = 2 THEN <<<<1, 2>>>> ELSE <<<<1, 2>>, <<1, 3>>, <<2, 3>>>>
PairsOf(r) == IF r.inter THEN <<<<1, 2>>>> ELSE IF r.pairs = <<>> THEN Combos(Len(r.sets)) ELSE r.pairs

(* baseline-pairs of two data sets: one of every element has to be there, nothing else may *)
Class(k, r, d1, d2) ==
  LET good == Live(d1, r.autos, r.crosses) \cap Live(d2, r.autos, r.crosses)
  IN IF k = 0 THEN {<<a, a>> : a \in good} ELSE {p \in Up : p[2] - p[1] = k /\ p[1] \in good /\ p[2] \in good}
Kinds(r) == (IF r.autos THEN {0} ELSE {}) \cup (IF r.crosses THEN r.lens ELSE {})
Every(r, d1, d2) ==
  UNION {{x \in Class(k, r, d1, d2) \X Class(k, r, d1, d2) :
            /\ Avail(d1, x[1]) /\ Avail(d2, x[2])
            /\ (x[1] = x[2] => ~r.noautos) /\ (x[1] # x[2] => ~r.nocross)} : k \in Kinds(r)}
Must(r, d1, d2) == LET e == Every(r, d1, d2) IN
  IF r.noperm THEN {{x, Flip(x)} : x \in {y \in e : Flip(y) \in e}} ELSE {{x} : x \in e}
Usable(r, d1, d2) ==    \* of a given list
  SelectSeq(r.blps, LAMBDA x : Avail(d1, x[1]) /\ Avail(d2, x[2]))
Has(r, d1, d2) == IF r.given THEN Usable(r, d1, d2) # <<>> ELSE Must(r, d1, d2) # {}
Unclear(r, d1, d2) == ~r.given /\ Must(r, d1, d2) = {} /\ Every(r, d1, d2) # {}

Asked(r) == IF r.pols # <<>> THEN Range(r.pols)
            ELSE {<<p, p>> : p \in UNION {Range(pool[r.sets[i]].pols) : i \in DOMAIN r.sets}}
Valid(r, d1, d2) == {q \in Asked(r) : q[1] \in Range(d1.pols) /\ q[2] \in Range(d2.pols)}

(* -------------------------------------------------------------------- the run *)
BadWindow(r) == \E i \in DOMAIN r.wins : r.wins[i][1] >= r.wins[i][2] \/ r.wins[i][2] > NF
Refused(r) == BadWindow(r) \/ (r.inter /\ Len(r.sets) > 1) \/ r.badlabel
Uneven(w) == \E i, j \in DOMAIN w : Len(w[i].t) # Len(w[j].t)

RECURSIVE Exec(_, _, _, _, _)
Exec(r, i, f, n, new) ==
  LET w == Work(r)  ps == PairsOf(r) IN
  IF i > Len(ps) THEN [f |-> f, n |-> n, new |-> new, err |-> FALSE]
  ELSE LET p == ps[i]  d1 == pool[w[p[1]].d]  d2 == pool[w[p[2]].d]  key == <<Group(r), Name(r, p)>> IN
       IF ~Has(r, d1, d2) THEN Exec(r, i + 1, f, n, new)
       ELSE IF Valid(r, d1, d2) = {} \/ Uneven(w) \/ (key \in DOMAIN f /\ ~r.over) THEN [f |-> f, n |-> n, new |-> new, err |-> TRUE]
       ELSE Exec(r, i + 1, [k \in DOMAIN f \cup {key} |-> IF k = key THEN n + 1 ELSE f[k]], n + 1,
                 Append(new, [group |-> key[1], name |-> key[2], id |-> n + 1, p |-> p,
                              list |-> IF r.given THEN Usable(r, d1, d2) ELSE <<>>,
                              must |-> IF r.given THEN {} ELSE Must(r, d1, d2), may |-> IF r.given THEN {} ELSE Every(r, d1, d2),
                              pols |-> Valid(r, d1, d2)]))

Tree(f) == {<<k[1], k[2], f[k]>> : k \in DOMAIN f}
Sub(S, n) == RandomSubset(n, S)

Make ==
  \E nts \in Pick({3, 4, 4, 5, 6}), how \in Pick(1..6), o \in Pick([1..3 -> 0..2]), sh \in Pick([1..3 -> 1..25]), cut \in Pick(0..8), dead \in Pick(0..11),
     seed \in Pick(0..9999) :
  \E b1 \in {Sub(Up, 4)}, b2 \in {Sub(Up, 4)}, b3 \in {Sub(Up, 5)}, fl \in {Sub(Up, 2)} :
    LET bs == <<b1, IF how < 4 THEN b1 ELSE b2, b3>>
        turn(S) == {IF p \in fl /\ how = 6 THEN Flip(p) ELSE p : p \in S}
    IN /\ pool' = [d \in 1..3 |-> [bls |-> turn(bs[d]), pols |-> IF cut = d THEN <<"xx">> ELSE IF cut = d + 3 THEN <<"yy", "xx">> ELSE <<"xx", "yy">>,
                                   t0 |-> o[d], nt |-> IF sh[d] = 1 THEN nts + 1 ELSE nts,
                                   dead |-> IF dead > 5 THEN 0 - 1 ELSE IF dead < 4 /\ d # (seed % 3) + 1 THEN 0 - 1 ELSE dead % 4]]
       /\ UNCHANGED <<file, count>>
       /\ last' = [op |-> "make", seed |-> seed,
                   sets |-> [d \in 1..3 |-> [bls |-> SetToSeq(pool'[d].bls), pols |-> pool'[d].pols, t0 |-> pool'[d].t0, nt |-> pool'[d].nt, dead |-> pool'[d].dead]]]

Put ==   \* a spectrum stored by someone else
  \E g \in Pick({"dset0_dset1", "dset0_dset1", "g", "other"}), n \in Pick({"dset0_x_dset1", "dset0_x_dset1_e", "a_x_b", "mine"}) :
    /\ count' = count + 1
    /\ file' = [k \in DOMAIN file \cup {<<g, n>>} |-> IF k = <<g, n>> THEN count + 1 ELSE file[k]]
    /\ last' = [op |-> "put", group |-> g, name |-> n, id |-> count + 1, file |-> Tree(file')]
    /\ UNCHANGED pool

LabelSets == {<<"a", "b", "c">>, <<"b", "a", "a">>, <<"a", "a", "b">>, <<"day1", "a", "b">>, <<"dset1", "dset0", "x">>}
Wins == {<<0, 8>>, <<1, 7>>, <<0, 4>>, <<4, 8>>, <<2, 8>>}
Safe(S) == {p \in Up : \A d \in S : pool[d].dead \notin {p[1], p[2]}}    \* a dead baseline is not asked for by name
RunIt ==
  \E n \in Pick({1, 2, 2, 2, 3}), rot \in Pick(0..5), lb \in Pick(0..9), pr \in Pick(0..5), gr \in Pick(0..4), ex \in Pick(0..4), over \in Pick(1..4),
     it \in Pick(1..4), trim \in Pick(1..3), given \in Pick(1..5), pl \in Pick(0..6), nw \in Pick(0..4), bad \in Pick(1..30), rd \in Pick(0..9999),
     fl \in Pick([{"noautos", "nocross", "noperm", "autos", "nocr"} -> 1..6]), mode \in Pick(1..7), cal \in Pick(0..5), std \in Pick(1..3), bc \in Pick(1..3),
     reph \in Pick(0..7), opt \in Pick(1..12), th \in Pick(1..3), beam \in Pick(1..5), per \in Pick(1..30), ln \in Pick(1..5) :
  \E three \in {<<<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<1, 3, 2>>, <<3, 2, 1>>, <<2, 1, 3>>>>[rot + 1]} :
    LET sets == SubSeq(three, 1, n)
        inter == (n = 1 /\ it # 1) \/ (bad = 2 /\ it = 1)
        idx == 1..n
        all == SetToSeq(idx \X idx)
        m == Len(all)
        prs == IF pr < 3 THEN <<>> ELSE IF pr = 3 THEN <<all[(rd % m) + 1]>> ELSE IF pr = 4 THEN <<all[(rd % m) + 1], all[((rd \div 10) % m) + 1]>>
               ELSE <<all[m - (rd % m)], all[1], all[((rd \div 7) % m) + 1]>>
        safe == SetToSeq(Safe(Range(sets)))
        k == Len(safe)
        bl(q) == LET p == safe[((rd \div q) % k) + 1] IN p
        same(p, q) == IF (rd \div q) % 4 = 0 THEN p ELSE LET c == SetToSeq({s \in Range(safe) : Len4(s) = Len4(p)}) IN c[((rd \div (q + 2)) % Len(c)) + 1]
        pair(q) == LET p == bl(q)  s == same(p, q) IN IF (rd \div (q + 1)) % 5 = 0 THEN <<Flip(p), Flip(s)>> ELSE <<p, s>>
        blps == SetToSeq({pair(q) : q \in {1, 3, 8, 17} \cup (IF rd % 2 = 0 THEN {40, 61} ELSE {})})
        ws == LET w == SetToSeq(Wins) IN IF nw = 0 THEN <<>> ELSE [i \in 1..(IF nw = 4 THEN 2 ELSE 1) |-> w[((rd + 2 * i) % 5) + 1]]
        withbeam == beam = 1
        lens == <<{1, 2, 3}, {1, 2, 3}, {1}, {2, 3}, {1, 2}>>[ln]
        r == [sets |-> sets, labels |-> IF lb < 5 THEN <<>> ELSE SubSeq(SetToSeq(LabelSets)[lb - 4], 1, n), badlabel |-> bad = 1,
              pairs |-> prs, group |-> IF gr < 3 THEN "none" ELSE IF gr = 3 THEN "g" ELSE "dset0_dset1", ext |-> IF ex < 3 THEN "" ELSE IF ex = 3 THEN "_e" ELSE ".f",
              over |-> over # 1, inter |-> inter, trim |-> trim = 1, given |-> given > 2 /\ safe # <<>>, blps |-> IF given > 2 /\ safe # <<>> THEN blps ELSE <<>>,
              pols |-> IF withbeam THEN (IF pl < 4 THEN <<<<"xx", "xx">>, <<"yy", "yy">>>> ELSE <<<<"xx", "xx">>>>)
                       ELSE IF pl < 3 THEN <<>> ELSE IF pl = 3 THEN <<<<"xx", "xx">>>> ELSE IF pl = 4 THEN <<<<"yy", "yy">>, <<"xx", "yy">>>>
                       ELSE IF pl = 5 THEN <<<<"xx", "yy">>>> ELSE <<<<"yy", "yy">>>>,
              wins |-> IF bad = 3 THEN <<<<2, 9>>>> ELSE IF bad = 4 THEN <<<<4, 4>>>> ELSE ws,
              noautos |-> fl["noautos"] = 1, nocross |-> fl["nocross"] = 1 /\ fl["noautos"] # 1, noperm |-> fl["noperm"] > 3, autos |-> fl["autos"] = 1, crosses |-> ~(fl["nocr"] = 1 /\ fl["autos"] = 1),
              lens |-> lens, lencode |-> ln, per |-> IF per < 3 /\ given > 2 /\ safe # <<>> THEN per ELSE 0, mode |-> mode, cal |-> cal, std |-> std = 1, bc |-> bc, thresh |-> th, rephase |-> IF reph < n THEN reph ELSE 0 - 1,
              opt |-> opt, beam |-> withbeam, seed |-> rd]
        ds(p) == <<pool[Work(r)[p[1]].d], pool[Work(r)[p[2]].d]>>
        fine == /\ r.trim => Cardinality(Common(r)) >= 2
                /\ r.inter => Len(Trimmed(r, 1)) >= 2
                /\ Refused(r) \/ \A i \in DOMAIN PairsOf(r) : ~Unclear(r, ds(PairsOf(r)[i])[1], ds(PairsOf(r)[i])[2])
        e == IF Refused(r) THEN [f |-> file, n |-> count, new |-> <<>>, err |-> TRUE] ELSE Exec(r, 1, file, count, <<>>)
    IN IF fine
       THEN /\ file' = e.f /\ count' = e.n /\ UNCHANGED pool
            /\ last' = [op |-> "run", r |-> r, refused |-> Refused(r), err |-> e.err, new |-> e.new, file |-> Tree(e.f),
                        work |-> IF Refused(r) THEN <<>> ELSE Work(r), labels |-> IF Refused(r) THEN <<>> ELSE Labels(r),
                        uneven |-> IF Refused(r) THEN FALSE ELSE Uneven(Work(r))]
       ELSE last' = [op |-> "skip"] /\ UNCHANGED <<pool, file, count>>

Init == pool = <<>> /\ file = <<>> /\ count = 0 /\ last = [op |-> "init"] /\ step = 0
Next == /\ step < MaxStep /\ step' = step + 1
        /\ IF step = 0 THEN Make
           ELSE \E k \in {RandomElement(1..12)} : CASE k = 1 -> Put [] k = 2 -> Make [] OTHER -> RunIt
Spec == Init /\ [][Next]_vars

(* ----------------------------------------------------------------- properties *)
Ran == last.op = "run"
(* one spectrum for every pair, unless a later pair of the request has the same name *)
OneEach == Ran => \A i, j \in DOMAIN last.new : (i # j /\ last.new[i].name = last.new[j].name) => last.new[i].p = last.new[j].p
NewThere == Ran => \A i \in DOMAIN last.new :
   \E j \in DOMAIN last.new : last.new[j].name = last.new[i].name /\ <<last.new[j].group, last.new[j].name, last.new[j].id>> \in last.file
NothingLost == [][DOMAIN file \subseteq DOMAIN file']_vars
Untouched == [][\A k \in DOMAIN file : file'[k] # file[k] =>
                  \/ last'.op = "put"
                  \/ last'.op = "run" /\ last'.r.over /\ \E i \in DOMAIN last'.new : <<last'.new[i].group, last'.new[i].name>> = k]_vars
Kept == [][last'.op = "run" => (last'.refused => file' = file)]_vars
Halves == (Ran /\ ~last.refused) => (last.r.inter =>
   /\ Range(last.work[1].t) \cap Range(last.work[2].t) = {}
   /\ Len(last.work[1].t) = Len(last.work[2].t)
   /\ \A i \in DOMAIN last.work[1].t : last.work[2].t[i] = last.work[1].t[i] + 1)
Aligned == (Ran /\ ~last.refused) => (last.r.trim /\ ~last.r.inter => \A i, j \in DOMAIN last.work : last.work[i].t = last.work[j].t)
Shown == ~Emit \/ PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
