-------------------------------- MODULE Plots --------------------------------
(* What is drawn of a power spectrum object.                                  *)
(*                                                                            *)
(* An object has cells <<window, pair, time, polarization>>; a cell without   *)
(* integration time is blank.  A request names windows, groups of pairs,      *)
(* times and polarization; a plot is a set of curves (or rows of an image),   *)
(* each of which is the mean of certain cells, all of the request, and blank  *)
(* if all of these are.  Drawing changes nothing.                             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, Randomization

CONSTANTS Random, MaxStep, Emit

VARIABLES obj, last, step
vars == <<obj, last, step>>
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
(* mostly x, sometimes (one time in n) another of S *)
Mostly(x, S, n) == IF Random THEN {IF RandomElement(1..n) = 1 THEN RandomElement(S) ELSE x} ELSE S \cup {x}
Bern(n) == IF Random THEN {RandomElement(1..n) = 1} ELSE BOOLEAN

Spws == 0..3
Blps == 0..7
Tps == 0..3
Pols == 0..3
Sub(S) == SUBSET S \ {{}}
Some(S, n) == {x \in Sub(S) : Cardinality(x) <= n}
Class == [b \in Blps |-> CASE b \in {3, 5} -> 3 [] b = 6 -> 2 [] OTHER -> 1]      \* pairs of about the same length

Pairs(o) == {r[1] : r \in o.rows}
TimesOf(R, b) == SetToSortSeq({r[2] : r \in {r \in R : r[1] = b}}, LAMBDA x, y : x < y)
Blank(o, s, b, t, p) == <<s, b, t, p>> \in o.blank

(* ------------------------------------------------------------------- objects *)
Make ==
  \E ss \in Pick(Some(Spws, 2)), ps \in Pick(Some(Pols, 2)), bs \in Pick({x \in Some(Blps, 4) : Cardinality(x) >= 1}), even \in Bern(2),
     ts \in Pick(Some(Tps, 4)), folded \in Bern(5), stats \in Pick({{}, {"err"}, {"err", "noise_1_of_2"}}), seed \in Pick(1..500) :
  \E f \in Pick([Blps -> Sub(Tps)]), z \in Pick([Spws \X Blps \X Tps \X Pols -> 1..8]) :
    LET rows == {<<b, t>> : b \in bs, t \in Tps} \cap (IF even THEN {<<b, t>> : b \in bs, t \in ts} ELSE {<<b, t>> \in bs \X Tps : t \in f[b]})
        q == SetToSeq(ss)
    IN /\ obj' = [spws |-> IF seed % 2 = 0 THEN q ELSE Reverse(q), rows |-> rows, pols |-> ps, folded |-> folded, stats |-> stats,
                  blank |-> {x \in ss \X bs \X Tps \X ps : <<x[2], x[3]>> \in rows /\ z[x] = 1}, seed |-> seed, h |-> seed % 5 < 3]
       /\ last' = [op |-> "make", obj |-> obj']

(* ------------------------------------------------------------------ requests *)
(* times every pair has, if there are any *)
Shared(o) == {t \in Tps : \A b \in Pairs(o) : <<b, t>> \in o.rows}
RandomSubsetTimes == LET S == Shared(obj) IN IF S = {} THEN {r[2] : r \in obj.rows} ELSE RandomElement(Sub(S))
(* groups of pairs by numbers: pairs with the same number together, in order of another; zero: not asked *)
Grouped(bs, g, h) ==
  LET of(i) == SetToSortSeq({b \in bs : g[b] = i}, LAMBDA x, y : h[x] < h[y])
  IN SelectSeq([i \in 1..3 |-> of(i)], LAMBDA q : q # <<>>)
Each(bs, h) == LET q == SetToSortSeq(bs, LAMBDA x, y : h[x] < h[y]) IN [i \in DOMAIN q |-> <<q[i]>>]
Range0(q) == {q[i] : i \in DOMAIN q}
Asked(G) == UNION {Range0(G[i]) : i \in DOMAIN G}

(* the cells a request is about *)
Kept(o, rq) == {r \in o.rows : (rq.times = {} \/ r[2] \in rq.times)}
Even(R, q) == \A i \in DOMAIN q : Len(TimesOf(R, q[i])) = Len(TimesOf(R, q[1]))
Valid(o, rq) ==
  LET R == Kept(o, rq)
  IN /\ rq.wrong = "" /\ R # {} /\ rq.spw \in DOMAIN o.spws /\ rq.pol \in o.pols
     /\ \A b \in Asked(rq.groups) : TimesOf(R, b) # <<>>
     /\ ~(rq.fold /\ o.folded)
     /\ rq.avgb => \A i \in DOMAIN rq.groups : rq.avgt \/ Even(R, rq.groups[i])
     /\ rq.stat = "" \/ rq.stat \in o.stats
     /\ rq.error = "" \/ rq.error \in o.stats

RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flatten(Tail(q))
Curve(o, rq, group, ms, ts) ==
  LET s == o.spws[rq.spw] IN
  [pairs |-> group, b |-> group[1], ts |-> ts, mem |-> ms,
   blank |-> \A i \in DOMAIN ms : Blank(o, s, ms[i][1], ms[i][2], rq.pol)]
All(R, b) == LET q == TimesOf(R, b) IN [i \in DOMAIN q |-> <<b, q[i]>>]
Curves(o, rq) ==
  LET R == Kept(o, rq)
      per(g) ==
        IF rq.avgb
        THEN LET ts == TimesOf(R, g[1])
             IN IF rq.avgt THEN <<Curve(o, rq, g, Flatten([j \in DOMAIN g |-> All(R, g[j])]), ts)>>
                ELSE [i \in DOMAIN ts |-> Curve(o, rq, g, [j \in DOMAIN g |-> <<g[j], TimesOf(R, g[j])[i]>>], <<ts[i]>>)]
        ELSE Flatten([j \in DOMAIN g |->
               LET ts == TimesOf(R, g[j]) IN
               IF rq.avgt THEN <<[Curve(o, rq, g, All(R, g[j]), ts) EXCEPT !.b = g[j]]>>
               ELSE [i \in DOMAIN ts |-> [Curve(o, rq, g, <<<<g[j], ts[i]>>>>, <<ts[i]>>) EXCEPT !.b = g[j]]]])
  IN Flatten([k \in DOMAIN rq.groups |-> per(rq.groups[k])])

Wrongs == {"antpair", "name", "component"}
Rec(op, rq, ok, out, more) == last' = [op |-> op, req |-> rq, ok |-> ok, out |-> out] @@ more

Spectrum ==
  \E n \in Pick(0..4), g \in Pick([Blps -> 0..3]), h \in Pick([Blps -> 1..30]), avgb \in Bern(3), avgt \in Bern(3), fold \in Bern(3), tsel \in Bern(3),
     ts \in Mostly(RandomSubsetTimes, Sub(Tps), 4), spw \in Mostly(1, 1..2, IF Len(obj.spws) = 2 THEN 1 ELSE 8), pol \in Mostly(RandomElement(obj.pols), Pols, 12), st \in Mostly("", {"err", "noise_1_of_2"}, 5),
     er \in Mostly("", {"err", "noise_1_of_2"}, 3), wrong \in Mostly("", Wrongs, 15) :
    LET G0 == IF n < 2 THEN Each({b \in Pairs(obj) : g[b] > 0}, h) ELSE Grouped(Pairs(obj), g, h)
        G == IF G0 = <<>> THEN Each(Pairs(obj), h) ELSE G0
        avg == avgb \/ avgt
        rq == [groups |-> G, spw |-> spw, pol |-> pol, times |-> IF tsel THEN ts ELSE {}, avgb |-> avgb, avgt |-> avgt, fold |-> fold /\ (~obj.folded \/ g[0] = 0),
               stat |-> IF avg THEN "" ELSE st, error |-> IF avg THEN "" ELSE er, wrong |-> wrong]
        ok == Valid(obj, rq)
    IN Rec("spectrum", rq, ok, IF ok THEN Curves(obj, rq) ELSE <<>>, [x |-> 0]) /\ UNCHANGED obj

Waterfall ==
  \E n \in Pick(0..4), g \in Pick([Blps -> 0..3]), h \in Pick([Blps -> 1..30]), avgb \in Bern(3), fold \in Bern(3), tsel \in Bern(3),
     ts \in Mostly(RandomSubsetTimes, Sub(Tps), 4), spw \in Mostly(1, 1..2, IF Len(obj.spws) = 2 THEN 1 ELSE 8), pol \in Mostly(RandomElement(obj.pols), Pols, 12), wrong \in Mostly("", Wrongs, 15) :
    LET G0 == IF n < 2 THEN Each({b \in Pairs(obj) : g[b] > 0}, h) ELSE Grouped(Pairs(obj), g, h)
        G == IF G0 = <<>> THEN Each(Pairs(obj), h) ELSE G0
        rq == [groups |-> G, spw |-> spw, pol |-> pol, times |-> IF tsel THEN ts ELSE {}, avgb |-> avgb, avgt |-> FALSE, fold |-> fold /\ (~obj.folded \/ g[0] = 0),
               stat |-> "", error |-> "", wrong |-> wrong]
        ok == Valid(obj, rq)
    IN Rec("waterfall", rq, ok, IF ok THEN Curves(obj, rq) ELSE <<>>, [x |-> 0]) /\ UNCHANGED obj

(* the wedge averages everything of about the same length, and shows lengths in order *)
Rows(o, rq) ==
  LET R == {r \in Kept(o, rq) : r[1] \in Asked(rq.groups)}
      bs == {r[1] : r \in R}
      len == {k \in 1..3 : \E b \in bs : Class[b] = k}
      of(k) == SetToSortSeq({b \in bs : Class[b] = k}, LAMBDA x, y : x < y)
      q == SetToSortSeq(len, LAMBDA x, y : x < y)
  IN [i \in DOMAIN q |-> Curve(o, rq, of(q[i]), Flatten([j \in DOMAIN of(q[i]) |-> All(R, of(q[i])[j])]), <<>>)]
Wedge ==
  \E some \in Bern(2), g \in Pick([Blps -> 0..3]), fold \in Bern(3), tsel \in Bern(3), ts \in Mostly(RandomSubsetTimes, Sub(Tps), 4), spw \in Mostly(1, 1..2, IF Len(obj.spws) = 2 THEN 1 ELSE 8),
     pol \in Mostly(RandomElement(obj.pols), Pols, 12), wrong \in Mostly("", {"component"}, 15), ew \in Mostly("", {"err"}, 3) :
    LET bs == {b \in Pairs(obj) : ~some \/ g[b] > 0}
        rq == [groups |-> Each(bs, [b \in Blps |-> b]), spw |-> spw, pol |-> pol, times |-> IF tsel THEN ts ELSE {}, avgb |-> TRUE, avgt |-> TRUE, fold |-> fold /\ (~obj.folded \/ g[0] = 0),
               stat |-> ew, error |-> "", wrong |-> wrong]
        R == Kept(obj, rq)
        ok == /\ rq.wrong = "" /\ rq.spw \in DOMAIN obj.spws /\ rq.pol \in obj.pols /\ ~(rq.fold /\ obj.folded) /\ (ew = "" \/ ew \in obj.stats)
              /\ Len(Rows(obj, rq)) >= 2
        (* pairs asked for that have none of the times *)
        loose == \E b \in bs : TimesOf(R, b) = <<>>
    IN Rec("wedge", rq, ok, IF ok THEN Rows(obj, rq) ELSE <<>>, [all |-> ~some, loose |-> loose]) /\ UNCHANGED obj

(* one file per baseline and polarization of a set of visibilities *)
Files ==
  \E bs \in Pick(Sub(1..3)), ps \in Pick(Sub(1..4)), what \in Pick({"data", "flags", "nsamples"}), ext \in Pick({"png", "pdf", "none"}), dotted \in Bern(3),
     wrong \in Mostly("", {"what", "object", "scale"}, 6) :
    Rec("files", [what |-> what, bls |-> bs, pols |-> ps, ext |-> ext, dotted |-> dotted, wrong |-> wrong], wrong = "",
        IF wrong = "" THEN SetToSeq(bs \X ps) ELSE <<>>, [x |-> 0]) /\ UNCHANGED obj

Init == obj = [none |-> TRUE] /\ last = [op |-> "init"] /\ step = 0
Next == /\ step < MaxStep /\ step' = step + 1
        /\ IF step = 0 THEN Make
           ELSE \E k \in {RandomElement(1..11)} : CASE k <= 2 -> Make [] k <= 5 -> Spectrum [] k <= 8 -> Waterfall [] k = 11 -> Files [] OTHER -> Wedge
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- properties *)
Drawn == last.op \in {"spectrum", "waterfall", "wedge"} /\ last.ok
Members(c) == {c.mem[i] : i \in DOMAIN c.mem}
(* only what was asked for is drawn, and all of it; nothing twice in groups that are disjoint *)
Request == Drawn =>
  LET R == {r \in Kept(obj, last.req) : r[1] \in Asked(last.req.groups)}
  IN /\ UNION {Members(last.out[i]) : i \in DOMAIN last.out} = R
     /\ \A i, j \in DOMAIN last.out : i # j => Members(last.out[i]) \cap Members(last.out[j]) = {}
     /\ \A i \in DOMAIN last.out : Len(last.out[i].mem) = Cardinality(Members(last.out[i]))
(* curves do not mix groups; without averaging each is one cell *)
Unmixed == Drawn =>
  \A i \in DOMAIN last.out : LET c == last.out[i] IN
    /\ \A m \in Members(c) : m[1] \in Range0(c.pairs)
    /\ (~last.req.avgb => \A m \in Members(c) : m[1] = c.b) /\ (~last.req.avgb /\ ~last.req.avgt => Len(c.mem) = 1)
    /\ last.op = "wedge" => \A m, k \in Members(c) : Class[m[1]] = Class[k[1]]
(* averaging everything is the mean over the curves of the plot without averaging *)
Coarser == Drawn /\ last.op # "wedge" =>
  LET fine == Curves(obj, [last.req EXCEPT !.avgb = FALSE, !.avgt = FALSE]) IN
    \A i \in DOMAIN fine : \E j \in DOMAIN last.out : Members(fine[i]) \subseteq Members(last.out[j])
Blanks == Drawn => \A i \in DOMAIN last.out : last.out[i].blank <=>
    {<<obj.spws[last.req.spw], m[1], m[2], last.req.pol>> : m \in Members(last.out[i])} \subseteq obj.blank
Still == [][last'.op # "make" => obj' = obj]_vars
Shown == ~Emit \/ PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
