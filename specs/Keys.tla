-------------------------------- MODULE Keys --------------------------------
(* Addressing the cells of a power-spectrum object.                         *)
(*                                                                          *)
(* An object is a sequence of spectral windows, a sequence of rows          *)
(* <<baseline-pair, time-pair>> and a sequence of polarization pairs.  A    *)
(* key <<window index, baseline-pair, polarization pair>> denotes the       *)
(* positions of exactly the rows with that baseline-pair, in storage order, *)
(* or is refused.  Statistics are stored and read under keys.               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, Randomization

CONSTANTS Random, MaxStep, Emit

VARIABLES obj,    \* [spws, rows, pols, zero, folded]
          stat,   \* statistic name -> [cell -> sequence of values over the delay axis]; 0 is "not set"
          kind,   \* statistic name -> whether any value stored was complex
          last, step
vars == <<obj, stat, kind, last, step>>

Spws == 0..4  Blps == 0..7  Tps == 0..6  Pols == 0..3
Ndly == [s \in Spws |-> <<6, 4, 8, 7, 4>>[s + 1]]
(* the two baselines of every pair, and the length of each baseline in cm *)
Bl1 == [b \in Blps |-> <<1, 1, 2, 4, 2, 5, 1, 3>>[b + 1]]
Bl2 == [b \in Blps |-> <<1, 2, 3, 5, 1, 4, 4, 3>>[b + 1]]
Len2(b) == LET L == <<1460, 1460, 1450, 2920, 2910>> IN L[Bl1[b]] + L[Bl2[b]]  \* twice the average
T1 == [t \in Tps |-> <<0, 1, 2, 3, 0, 1, 0>>[t + 1]]
T2 == [t \in Tps |-> <<0, 1, 2, 3, 1, 2, 2>>[t + 1]]
Avg(t) == T1[t] + T2[t]

Names == {"sa", "sb", "sc"}
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Sub(S) == SUBSET S \ {{}}
Perm(S) == IF Random THEN LET q == SetToSeq(S) n == RandomElement(0..Len(q)) rev == RandomElement(BOOLEAN)
                              r == [i \in DOMAIN q |-> q[((i + n) % Len(q)) + 1]]
                          IN {IF rev THEN Reverse(r) ELSE r}
           ELSE {q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]}
(* interleave rows so that neither baseline-pair nor time is the major axis *)
Shuffle(q) == IF Random /\ Len(q) > 2
              THEN LET n == RandomElement(1..Len(q) - 1)
                       a == SubSeq(q, 1, n)  b == SubSeq(q, n + 1, Len(q))
                       m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                   IN [i \in 1..2 * m |-> IF i % 2 = 1 THEN a[(i + 1) \div 2] ELSE b[i \div 2]]
                      \o SubSeq(a, m + 1, Len(a)) \o SubSeq(b, m + 1, Len(b))
              ELSE q

HasObj == obj.spws # <<>>
RowsOf(o) == {o.rows[i] : i \in DOMAIN o.rows}
Cells(o) == {<<s, r, p>> : s \in Range(o.spws), r \in RowsOf(o), p \in Range(o.pols)}

(* ------------------------------------------------------------- resolution *)
(* a key: window index (0-based), baseline-pair <<id, conjugated?>>, polarization pair *)
KeyOK(o, k) == /\ k.spw \in 0..Len(o.spws) - 1
               /\ ~k.conj /\ \E i \in DOMAIN o.rows : o.rows[i][1] = k.blp
               /\ k.pol \in Range(o.pols)
WinOf(o, k) == o.spws[k.spw + 1]
Positions(o, k) == SelectSeq([i \in DOMAIN o.rows |-> i],
                       LAMBDA i : /\ o.rows[i][1] = k.blp
                                  /\ k.omit => <<WinOf(o, k), o.rows[i], k.pol>> \notin o.zero)
KeyRows(o, k) == [i \in DOMAIN Positions(o, k) |-> o.rows[Positions(o, k)[i]]]

Keys(o) == IF Random
  THEN {[spw |-> RandomElement(0..(Len(o.spws) - (IF RandomElement(1..8) = 1 THEN 0 ELSE 1))),
         blp |-> IF RandomElement(1..8) = 1 THEN RandomElement(Blps) ELSE RandomElement(RowsOf(o))[1],
         conj |-> RandomElement(1..12) = 1,
         pol |-> IF RandomElement(1..8) = 1 THEN RandomElement(Pols) ELSE RandomElement(Range(o.pols)),
         omit |-> RandomElement(1..3) = 1]}
  ELSE [spw : 0..Len(o.spws), blp : Blps, conj : BOOLEAN, pol : Pols, omit : BOOLEAN]

(* ---------------------------------------------------------------- actions *)
Rec(op, args, ok, res) == last' = [op |-> op, args |-> args, ok |-> ok, res |-> res]
Same == UNCHANGED <<obj, stat, kind>>

Make ==
  \E S \in Pick(Sub(Spws)), B \in Pick(Sub(Blps)), T \in Pick(Sub(Tps)), P \in Pick(Sub(Pols)), fold \in Pick(1..5) :
  \E D \in (IF Random THEN {RandomSubset(RandomElement(0..Cardinality(B \X T) \div 2), B \X T)} ELSE {{}}) :
  \E qs \in Perm(S), qr \in Perm((B \X T) \ D), qp \in Perm(P) :
    LET rows == Shuffle(qr)
        all == {<<s, rows[i], p>> : s \in S, i \in DOMAIN rows, p \in P}
        zero == IF Random THEN RandomSubset(RandomElement(0..Cardinality(all) \div 3), all) ELSE {}
    IN /\ obj' = [spws |-> qs, rows |-> rows, pols |-> qp, zero |-> zero, folded |-> fold = 1]
       /\ stat' = <<>> /\ kind' = <<>>
       /\ Rec("make", [obj |-> obj'], TRUE, <<>>)

Get == \E k \in Keys(obj) :
         /\ Same
         /\ IF KeyOK(obj, k)
            THEN Rec("get", k, TRUE, [spw |-> WinOf(obj, k), rows |-> KeyRows(obj, k), at |-> Positions(obj, k)])
            ELSE Rec("get", k, FALSE, <<>>)

Blank(o) == [c \in Cells(o) |-> [d \in 1..Ndly[c[1]] |-> 0]]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
AddrOf(o, k) == {<<WinOf(o, k), r, k.pol>> : r \in {x \in RowsOf(o) : x[1] = k.blp}}
SetStat ==
  \E k \in Keys(obj), n \in Pick(Names), v \in Pick(1..90), cplx \in Pick(BOOLEAN), badshape \in Pick(1..10) :
    IF KeyOK(obj, k) /\ badshape # 1
    THEN LET old == IF n \in DOMAIN stat THEN stat[n] ELSE Blank(obj)
             new == [c \in DOMAIN old |-> IF c \in AddrOf(obj, k) THEN [d \in DOMAIN old[c] |-> v] ELSE old[c]]
         IN /\ stat' = Upd(stat, n, new)
            /\ kind' = Upd(kind, n, cplx \/ (n \in DOMAIN kind /\ kind[n]))
            /\ UNCHANGED obj
            /\ Rec("setstat", [key |-> k, name |-> n, v |-> v, cplx |-> cplx, bad |-> FALSE], TRUE,
                   [rows |-> KeyRows(obj, [k EXCEPT !.omit = FALSE])])
    ELSE /\ Same
         /\ Rec("setstat", [key |-> k, name |-> n, v |-> v, cplx |-> cplx, bad |-> KeyOK(obj, k)], FALSE, <<>>)

(* all statistics values with |delay| above (below) the line  m * length + b  (nanoseconds) are replaced *)
(* |delay| of index d is |d - 1 - n\2| * 10000 / n ns; lengths are in units of half a centimetre *)
Lines == {<<0, 1000>>, <<0, 3000>>, <<50, 0>>, <<200, 500>>, <<100, 700>>}
Cmp(s, b, d, ln) == LET n == Ndly[s]
                        a == IF d - 1 >= n \div 2 THEN d - 1 - n \div 2 ELSE n \div 2 - d + 1
                    IN (a * 10000 * 200) - (ln[1] * Len2(b) + ln[2] * 200) * n
NoTie(ln) == \A s \in Range(obj.spws), r \in RowsOf(obj) : \A d \in 1..Ndly[s] :
                LET x == Cmp(s, r[1], d, ln) IN x > 50000 \/ x < -50000
Slice ==
  \E n \in Pick(Names), ln \in Pick(Lines), above \in Pick(BOOLEAN), v \in Pick(91..99) :
    IF n \in DOMAIN stat
    THEN IF NoTie(ln)
         THEN /\ stat' = [stat EXCEPT ![n] = [c \in DOMAIN @ |-> [d \in DOMAIN @[c] |->
                             IF (IF above THEN Cmp(c[1], c[2][1], d, ln) > 0 ELSE Cmp(c[1], c[2][1], d, ln) < 0)
                             THEN 0 - v ELSE @[c][d]]]]
              /\ UNCHANGED <<obj, kind>>
              /\ Rec("slice", [name |-> n, m |-> ln[1], b |-> ln[2], above |-> above, v |-> v], TRUE, <<>>)
         ELSE /\ Same /\ Rec("nop", <<>>, TRUE, <<>>)
    ELSE /\ Same
         /\ Rec("slice", [name |-> n, m |-> ln[1], b |-> ln[2], above |-> above, v |-> v], FALSE, <<>>)

GetStat ==
  \E k \in Keys(obj), n \in Pick(Names) :
    /\ Same
    /\ IF KeyOK(obj, k) /\ n \in DOMAIN stat
       THEN Rec("getstat", [key |-> k, name |-> n], TRUE,
                [rows |-> KeyRows(obj, k), spw |-> WinOf(obj, k),
                 vals |-> [i \in DOMAIN KeyRows(obj, k) |-> stat[n][<<WinOf(obj, k), KeyRows(obj, k)[i], k.pol>>]]])
       ELSE Rec("getstat", [key |-> k, name |-> n], FALSE, <<>>)

(* converters from lists of names to positions *)
Find ==
  \E I \in Pick(Sub(0..Len(obj.spws) - 1)), B \in Pick(Sub({r[1] : r \in RowsOf(obj)})), P \in Pick(Sub(Range(obj.pols))),
     t \in Pick({Avg(r[2]) : r \in RowsOf(obj)}), stray \in Pick(1..6), sb \in Pick(Blps), sp \in Pick(Pols) :
    LET BB == IF stray = 1 THEN B \cup {sb} ELSE B
        PP == IF stray = 2 THEN P \cup {sp} ELSE P
        II == IF stray = 3 THEN I \cup {Len(obj.spws)} ELSE I
        at(f(_)) == SelectSeq([i \in DOMAIN obj.rows |-> i], f)
    IN /\ Same
       /\ Rec("find", [spws |-> II, blps |-> BB, pols |-> PP, t |-> t], TRUE,
              [spwok |-> II \subseteq 0..Len(obj.spws) - 1,
               blpok |-> BB \subseteq {r[1] : r \in RowsOf(obj)}, polok |-> PP \subseteq Range(obj.pols),
               rows |-> at(LAMBDA i : obj.rows[i][1] \in BB),
               pols |-> SelectSeq([i \in DOMAIN obj.pols |-> i], LAMBDA i : obj.pols[i] \in PP),
               time |-> at(LAMBDA i : Avg(obj.rows[i][2]) = t),
               timeblp |-> at(LAMBDA i : Avg(obj.rows[i][2]) = t /\ obj.rows[i][1] \in BB)])
(* what the object says it contains: baseline-pairs in order of first appearance *)
FirstSeen == LET q == [i \in DOMAIN obj.rows |-> obj.rows[i][1]]
             IN [j \in 1..Cardinality(Range(q)) |->
                   q[CHOOSE i \in DOMAIN q : /\ \A h \in 1..i - 1 : q[h] # q[i]
                                             /\ Cardinality({q[h] : h \in 1..i}) = j]]
List == /\ Same
        /\ Rec("list", <<>>, TRUE, [blps |-> FirstSeen, pols |-> Range(obj.pols),
                                     keys |-> {<<i - 1, b, p>> : i \in DOMAIN obj.spws, b \in Range(FirstSeen), p \in Range(obj.pols)}])

Init == /\ obj = [spws |-> <<>>] /\ stat = <<>> /\ kind = <<>> /\ last = [op |-> "init"] /\ step = 0
Next == /\ step < MaxStep
        /\ step' = step + 1
        /\ IF ~HasObj THEN Make
           ELSE \E i \in Pick(1..12) :
                  CASE i <= 3 -> Get [] i <= 6 -> SetStat [] i <= 8 -> GetStat [] i = 9 -> Slice
                    [] i = 10 -> Find [] i = 11 -> List [] i = 12 -> IF Random /\ RandomElement(1..3) = 1 THEN Make ELSE GetStat
Spec == Init /\ [][Next]_vars

(* every cell is addressed by exactly one key, and keys partition the cells *)
Partition == HasObj =>
   \A i \in DOMAIN obj.spws, b \in {r[1] : r \in RowsOf(obj)}, p \in Range(obj.pols) :
      LET k == [spw |-> i - 1, blp |-> b, conj |-> FALSE, pol |-> p, omit |-> FALSE]
      IN KeyOK(obj, k) /\ Len(Positions(obj, k)) = Cardinality(AddrOf(obj, k))
RowsDistinct == HasObj => Cardinality(RowsOf(obj)) = Len(obj.rows)
Shown == Emit => PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
