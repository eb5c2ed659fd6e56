------------------------------ MODULE Redundant ------------------------------
(* Redundant baselines of an array and the baseline pairs formed from them.   *)
(*                                                                            *)
(* Antennas stand on a grid, MX squared units east and MY squared units north *)
(* between neighbours (lengths are kept squared, so that they are exact); a   *)
(* baseline is an ordered antenna pair and its vector runs from the first     *)
(* antenna to the second.  Baselines are redundant if their vectors agree up  *)
(* to the sign.  Two data sets each hold some baselines, in one of the two    *)
(* orientations, with so many of 8 samples flagged.                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, Randomization

CONSTANTS Random, MaxStep, Emit, NA, Cols, Rows

VARIABLES pos, data, last, step
vars == <<pos, data, last, step>>

MX == 16
MY == 9
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Ants == 0..NA - 1
Cell(c) == <<c % Cols, c \div Cols>>
Up == {<<a, b>> \in Ants \X Ants : a < b}      \* every cross baseline once
Twice == {<<a, a>> : a \in Ants}
Flip(p) == <<p[2], p[1]>>

Sub(v, w) == <<v[1] - w[1], v[2] - w[2]>>
Add(v, w) == <<v[1] + w[1], v[2] + w[2]>>
Neg(v) == <<0 - v[1], 0 - v[2]>>
Len2(v) == MX * v[1] * v[1] + MY * v[2] * v[2]
Vec(p) == Sub(pos[p[2]], pos[p[1]])
Upper(v) == v[2] > 0 \/ (v[2] = 0 /\ v[1] >= 0)
Line(v) == IF Upper(v) THEN v ELSE Neg(v)       \* a vector and its opposite are one
Class(p) == Line(Vec(p))
Along(p) == IF Upper(Vec(p)) THEN p ELSE Flip(p) \* the orientation in which the members of a group have equal vectors

(* angles in [0, 180): v is at a greater angle than w *)
Beyond(v, w) == w[1] * v[2] - w[2] * v[1] > 0
Cuts == {<<1, 0>>, <<7, 2>>, <<2, 7>>, <<0 - 2, 7>>, <<0 - 7, 3>>}
Whole == [lo2 |-> 0 - 1, hi2 |-> 100000, from |-> <<1, 0>>, to |-> <<0 - 1, 0>>, ew |-> 0]
Inside(v, lim) ==   \* length in (sqrt(lo2), sqrt(hi2)], angle beyond from (or no cut), not beyond to
  /\ Len2(v) > lim.lo2 /\ Len2(v) <= lim.hi2
  /\ lim.from = <<1, 0>> \/ Beyond(v, lim.from)
  /\ lim.to = <<0 - 1, 0>> \/ ~Beyond(v, lim.to)
  /\ (IF v[1] < 0 THEN 0 - v[1] ELSE v[1]) >= lim.ew
Limits(k) == IF k < 5 THEN {Whole} ELSE
  [lo2 : {0 - 1, 0 - 1, 9, 16, 25}, hi2 : {16, 73, 100, 100000}, from : IF k > 8 THEN Cuts ELSE {<<1, 0>>},
   to : IF k > 8 THEN (Cuts \ {<<1, 0>>}) \cup {<<0 - 1, 0>>} ELSE {<<0 - 1, 0>>}, ew : {0}]

(* ------------------------------------------------------------- redundant groups *)
Classes(As) == {Class(p) : p \in {q \in Up : q[1] \in As /\ q[2] \in As}}
Group(c, As) == {Along(p) : p \in {q \in Up : q[1] \in As /\ q[2] \in As /\ Class(q) = c}}
Autos(As) == {<<a, a>> : a \in As}
Reds(As, lim, autos, crosses) ==
  (IF crosses THEN {[c |-> c, bls |-> Group(c, As)] : c \in {d \in Classes(As) : Inside(d, lim)}} ELSE {})
  \cup (IF autos /\ As # {} THEN {[c |-> <<0, 0>>, bls |-> Autos(As)]} ELSE {})

(* -------------------------------------------------------------------- data sets *)
Holds(d) == DOMAIN d                 \* oriented baselines, some of them of an antenna with itself
Counted(p, autos, crosses) == IF p[1] = p[2] THEN autos ELSE crosses
Bad(d, t, autos, crosses) ==         \* antennas without a baseline flagged in less than t of 8 samples
  {a \in Ants : ~\E p \in Holds(d) : a \in {p[1], p[2]} /\ Counted(p, autos, crosses) /\ d[p] < t}
Avail(d, p) == p \in Holds(d) \/ Flip(p) \in Holds(d)

(* pairs of one group that have to be there, one per element (a set of one or two pairs); and those that may be there *)
Wanted(p, q, o) == /\ (p = q => ~o.noautos) /\ (p # q => ~o.nocross)
                   /\ o.filter => (Avail(data[1], p) /\ Avail(data[2], q))
Every(bls, o) == {x \in bls \X bls : Wanted(x[1], x[2], o)}
Must(bls, o) == IF ~o.noperm THEN {{x} : x \in Every(bls, o)}
                ELSE {{x, Flip(x)} : x \in {y \in Every(bls, o) : Flip(y) \in Every(bls, o)}}

(* ------------------------------------------------------------------------ steps *)
RECURSIVE Place(_, _, _)
Place(r, a, left) ==    \* antenna a gets the r[a]-th cell left
  IF a = NA THEN <<>> ELSE LET k == (r[a] % Len(left)) + 1 IN <<Cell(left[k])>> \o Place(r, a + 1, RemoveAt(left, k))
Spread(r) == LET s == Place(r, 0, [i \in 1..Cols * Rows |-> i - 1]) IN [a \in Ants |-> s[a + 1]]

DataOf(pres, flg, dead, dense) ==
  LET here == {p \in Up \cup Twice : pres[p] > dense}
      way(p) == IF pres[p] % 3 = 0 THEN Flip(p) ELSE p
      un(p) == IF p[1] <= p[2] THEN p ELSE Flip(p)
  IN [p \in {way(q) : q \in here} |-> IF dead \in {p[1], p[2]} THEN 8 ELSE IF flg[un(p)] > 8 THEN 0 ELSE flg[un(p)]]

Layout ==
  \E r \in Pick([Ants -> 0..Cols * Rows]) :
    /\ pos' = Spread(r)
    /\ \E pr1 \in Pick([Up \cup Twice -> 0..11]), pr2 \in Pick([Up \cup Twice -> 0..11]), k \in Pick(1..8),
          f1 \in Pick([Up \cup Twice -> 0..20]), f2 \in Pick([Up \cup Twice -> 0..20]), x1 \in Pick((0 - NA)..NA - 1), x2 \in Pick((0 - NA)..NA - 1),
          de \in Pick({0 - 1, 0, 1, 4}) :
         LET one == DataOf(pr1, f1, x1, de) IN
         data' = <<one, IF k < 3 THEN one ELSE IF k < 6 THEN DataOf(pr1, f2, x2, de) ELSE DataOf(pr2, f2, x2, de)>>
    /\ last' = [op |-> "layout", pos |-> [a \in 1..NA |-> pos'[a - 1]],
                data |-> [d \in 1..2 |-> {<<p[1], p[2], data'[d][p]>> : p \in DOMAIN data'[d]}]]

Calc ==
  \E a \in Pick(1..4), c \in Pick(1..6), k \in Pick(0..12), x \in Pick({0, 1, 2, 3}), t \in Pick({1, 4, 6, 8, 8}), f \in Pick(1..5),
     per \in Pick({0, 0, 1, 2, 3}), pm \in Pick(BOOLEAN), xa \in Pick(Ants), xb \in Pick(Ants) :
  \E lim \in Pick(Limits(k)) :
    LET crosses == c > 1
        autos == a = 1 \/ ~crosses
        o == [noautos |-> a = 2, nocross |-> a = 3, noperm |-> pm, filter |-> f > 1]
        given == IF x = 1 THEN {xa} ELSE IF x = 2 THEN {xa, xb} ELSE {}
        bad == [d \in 1..2 |-> IF o.filter THEN Bad(data[d], t, autos, crosses) ELSE {}]
        good == Ants \ (bad[1] \cup bad[2] \cup given)
        rs == Reds(good, lim, autos, crosses)
    IN /\ last' = [op |-> "calc", autos |-> autos, crosses |-> crosses, o |-> o, t |-> t, per |-> per, lim |-> lim,
                   given |-> given, hasgiven |-> x > 0, bad |-> bad,
                   groups |-> {[c |-> g.c, bls |-> g.bls, must |-> Must(g.bls, o), may |-> Every(g.bls, o)] : g \in rs}]
       /\ UNCHANGED <<pos, data>>

OfReds ==
  \E a \in Pick(1..3), k \in Pick(0..12), d \in Pick(1..2), pk \in Pick(BOOLEAN), xs \in Pick({0, 1, 2}), xa \in Pick(Ants), ew \in Pick({0, 0, 1, 2}) :
  \E lim \in Pick(Limits(k)) :
    LET used == {p[1] : p \in Holds(data[d])} \cup {p[2] : p \in Holds(data[d])}
        given == IF xs = 2 THEN {xa} ELSE {}
        As == (IF pk THEN used ELSE Ants) \ given
        l == [lim EXCEPT !.ew = ew]
        empty == Classes(IF pk THEN used ELSE Ants) = {}
    IN /\ last' = IF empty THEN [op |-> "skip"]    \* no baseline at all
                  ELSE [op |-> "reds", d |-> d, pick |-> pk, given |-> given, hasgiven |-> xs > 0, lim |-> l, autos |-> a > 1, only |-> a = 3,
                        groups |-> Reds(As, l, a > 1, a # 3)]
       /\ UNCHANGED <<pos, data>>

(* pairs of a list of baselines, without looking at the sky *)
Pairs(s, o) ==
  LET n == 1..Len(s) IN
  {<<i, j>> \in n \X n : (i = j => ~o.noautos) /\ (i # j => ~o.nocross) /\ (o.noperm => i <= j)}
Construct ==
  \E w \in Pick(0..8), n \in Pick(1..5), r \in Pick([1..5 -> 0..60]), pm \in Pick(BOOLEAN), a \in Pick(1..3), per \in Pick(0..4) :
    LET cells == SetToSeq(Up)
        s == [i \in 1..n |-> IF r[i] % 2 = 0 THEN cells[((r[1] + i) % Len(cells)) + 1] ELSE Flip(cells[((r[1] + i) % Len(cells)) + 1])]
        o == [noautos |-> a = 2, nocross |-> a = 3, noperm |-> pm]
    IN /\ last' = [op |-> "construct", bls |-> s, o |-> o, per |-> per, pairs |-> Pairs(s, o)]
       /\ UNCHANGED <<pos, data>>

(* baseline pairs of a spectrum object *)
Chosen(r, k) ==   \* mostly pairs of redundant baselines
  LET all == SetToSeq(Up \cup {Flip(p) : p \in Up})
      first(i) == all[(r[i] % Len(all)) + 1]
      like(p) == SetToSeq({q \in Up \cup {Flip(u) : u \in Up} : Vec(q) = Vec(p)})
      second(i) == IF r[i] % k = 0 THEN all[(r[i + 1] % Len(all)) + 1] ELSE like(first(i))[(r[i + 1] % Len(like(first(i)))) + 1]
  IN {<<first(i), second(i)>> : i \in 1..Len(r) - 1}
Blvecs ==
  \E r \in Pick([1..9 -> 0..1000]), k \in Pick({2, 3, 5}), lens \in Pick(BOOLEAN), big \in Pick(1..4) :
    LET bs == Chosen(r, k)
        sum(b) == Add(Vec(b[1]), Vec(b[2]))
        key(b) == IF lens THEN <<Len2(sum(b))>> ELSE sum(b)
        lines == {Class(b[1]) : b \in bs} \cup {Class(b[2]) : b \in bs}
    IN /\ last' = [op |-> "blvecs", pairs |-> bs, lens |-> lens, far |-> big = 1,
                   groups |-> {[key |-> kk, len2 |-> Len2(sum(CHOOSE b \in bs : key(b) = kk)), pairs |-> {b \in bs : key(b) = kk}] : kk \in {key(b) : b \in bs}},
                   red |-> {[c |-> c, must |-> {b \in bs : Class(b[1]) = c /\ Vec(b[1]) = Vec(b[2])},
                             may |-> {b \in bs : Class(b[1]) = c /\ Class(b[2]) = c}] : c \in lines}]
       /\ UNCHANGED <<pos, data>>

Validate ==
  \E r \in Pick([1..6 -> 0..1000]), k \in Pick({2, 3}), tol2 \in Pick({0, 9, 16, 25, 40, 73}) :
    LET used == {p[1] : p \in Holds(data[1])} \cup {p[2] : p \in Holds(data[1])} \cup {p[1] : p \in Holds(data[2])} \cup {p[2] : p \in Holds(data[2])}
        bs == {b \in Chosen(r, k) : {b[1][1], b[1][2], b[2][1], b[2][2]} \subseteq used}
    IN /\ last' = [op |-> "validate", pairs |-> bs, tol2 |-> tol2, warn |-> {b \in bs : Len2(Sub(Vec(b[1]), Vec(b[2]))) > tol2}]
       /\ UNCHANGED <<pos, data>>

Init == pos = <<>> /\ data = <<>> /\ last = [op |-> "init"] /\ step = 0
Next == /\ step < MaxStep /\ step' = step + 1
        /\ IF step = 0 THEN Layout
           ELSE \E k \in {RandomElement(1..12)} :
                  CASE k < 7 -> Calc [] k < 9 -> OfReds [] k = 9 -> Construct [] k < 12 -> Blvecs [] OTHER -> Validate
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- properties *)
Did(o) == last.op = o
Members(gs) == UNION {g.bls : g \in gs}
(* groups are disjoint, their members have one vector, and no two groups are redundant with each other *)
Partition == (Did("calc") \/ Did("reds")) =>
  /\ \A g \in last.groups : \A p, q \in g.bls : p[1] # p[2] => Vec(p) = Vec(q)
  /\ \A g, h \in last.groups : g # h => (g.c # h.c /\ \A p \in g.bls : p \notin h.bls /\ Flip(p) \notin h.bls)
  /\ \A g \in last.groups : g.c # <<0, 0>> => Inside(g.c, last.lim)
Redundancy == Did("calc") => \A g \in last.groups : \A x \in g.may : Vec(x[1]) = Vec(x[2])
NoneBad == Did("calc") => \A p \in Members(last.groups) : {p[1], p[2]} \cap (last.bad[1] \cup last.bad[2] \cup last.given) = {}
Counts == Did("calc") => \A g \in last.groups :
   /\ \A m \in g.must : m \subseteq g.may
   /\ (last.o.noperm /\ ~last.o.filter) => Cardinality(g.must) = (IF last.o.nocross THEN 0 ELSE (Cardinality(g.bls) * (Cardinality(g.bls) - 1)) \div 2)
                                         + (IF last.o.noautos THEN 0 ELSE Cardinality(g.bls))
BlvecsOnce == Did("blvecs") =>
  /\ \A b \in last.pairs : \E g \in last.groups : b \in g.pairs
  /\ \A g, h \in last.groups : g # h => g.pairs \cap h.pairs = {}
  /\ \A g \in last.red : g.must \subseteq g.may
Shown == ~Emit \/ PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
