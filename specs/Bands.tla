-------------------------------- MODULE Bands --------------------------------
(* Spectral windows: channels picked by frequency, by redshift or by index.   *)
(*                                                                            *)
(* Frequencies are in quarters of a channel from the first channel of the     *)
(* data; channel k is at 4 k.  A range holds the channels lo <= 4 k < hi.     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, Randomization

CONSTANTS Random, MaxStep, Emit

VARIABLES n,     \* channels of the data
          wins,  \* windows of the spectrum estimated last: sequence of <<first, end>>
          last, step
vars == <<n, wins, last, step>>
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Mostly(x, S, k) == IF Random THEN {IF RandomElement(1..k) = 1 THEN RandomElement(S) ELSE x} ELSE S \cup {x}

(* channels first .. end - 1 of the data, those in a range, and their places *)
In(first, end, lo, hi) == {k \in first..(end - 1) : lo <= 4 * k /\ 4 * k < hi}
Answer(first, end, lo, hi) ==
  LET S == In(first, end, lo, hi) IN IF S = {} THEN <<>> ELSE <<Min(S) - first, Max(S) - first>>
Below(first, lo) == lo < 4 * first
Above(end, hi) == hi > 4 * (end - 1)
(* up to the far edge of the last channel: whether that is still of the band is not said *)
Edge(end, hi) == Above(end, hi) /\ hi <= 4 * end

Rec(op, r) == last' = [op |-> op, a |-> r]
Make == \E m \in Pick(5..14), df \in Pick({0, 1}), f0 \in Pick(0..2) :
  /\ n' = m /\ wins' = <<>> /\ Rec("make", [n |-> m, df |-> df, f0 |-> f0])

(* mostly ranges of the band *)
Ranges(first, end) ==
  [1..3 -> {<<4 * first + x, 4 * first + y>> : x \in 0..(4 * (end - first)), y \in 0..(4 * (end - first))}]
Ordered(r) == IF r[1] <= r[2] THEN r ELSE <<r[2], r[1]>>
Ask ==
  \E of \in Pick({"data", "data", "spectrum"}), m \in Pick(1..3), single \in Pick(BOOLEAN), by \in Pick({"freq", "z"}), strict \in Pick(BOOLEAN) :
  \E w \in Pick(DOMAIN wins \cup {0}) :
    LET sp == of = "spectrum" /\ Len(wins) = 1
        first == IF sp THEN wins[1][1] ELSE 0
        end == IF sp THEN wins[1][2] ELSE n
        k == IF single THEN 1 ELSE m
    IN \E x \in Pick([1..3 -> 0..(4 * (end - first))]), y \in Pick([1..3 -> 0..(4 * (end - first))]), out \in Mostly(0, -9..9, 3) :
       LET (* redshifts of boundaries are not exact: keep off the channels *)
           off(v) == IF by = "z" /\ (v % 4) = 0 THEN v + 1 ELSE v
           raw(i) == Ordered(<<4 * first + x[i] + (IF i = 1 /\ out < 0 THEN out ELSE 0), 4 * first + y[i] + (IF i = 1 /\ out > 0 THEN out + 5 ELSE 0)>>)
           rs == [i \in 1..k |-> <<off(raw(i)[1]), off(raw(i)[2])>>]
           refuse == strict /\ \E i \in 1..k : Below(first, rs[i][1]) \/ (Above(end, rs[i][2]) /\ ~Edge(end, rs[i][2]))
           maybe == strict /\ ~refuse /\ \E i \in 1..k : Edge(end, rs[i][2])
       IN /\ Rec("ask", [of |-> IF sp THEN "spectrum" ELSE "data", ranges |-> rs, single |-> single, by |-> by, strict |-> strict,
                         ok |-> ~refuse, either |-> maybe, first |-> first, end |-> end,
                         answer |-> [i \in 1..k |-> Answer(first, end, rs[i][1], rs[i][2])]])
          /\ UNCHANGED <<n, wins>>
(* upper below lower; not a tuple or list *)
Malformed ==
  \E how \in Pick({"turned", "turned", "array", "number"}), by \in Pick({"freq", "z"}), x \in Pick(1..8), y \in Pick(9..16) :
    /\ Rec("malformed", [how |-> how, by |-> by, range |-> <<x, y>>]) /\ UNCHANGED <<n, wins>>

Windows(m) == {<<a, b>> \in (0..m) \X (0..m) : b - a >= 3}
Estimate ==
  \E k \in Pick({1, 1, 2, 3}), ws \in Pick([1..3 -> Windows(n)]), nd \in Mostly(0, {2, 3}, 3) :
    LET w == IF Cardinality({ws[i] : i \in 1..k}) = k THEN [i \in 1..k |-> ws[i]] ELSE <<ws[1]>> IN
    /\ wins' = w /\ UNCHANGED n
    /\ Rec("estimate", [windows |-> w, nd |-> nd, channels |-> [i \in DOMAIN w |-> SetToSortSeq(In(w[i][1], w[i][2], 4 * w[i][1], 4 * w[i][2]), <)]])
SetSpw == \E w \in Pick(Windows(n)), nd \in Pick({0, 2, 3, 20}) :
  /\ Rec("set", [window |-> w, nd |-> nd, ok |-> nd <= w[2] - w[1]]) /\ UNCHANGED <<n, wins>>

Init == n = 0 /\ wins = <<>> /\ last = [op |-> "init", a |-> <<>>] /\ step = 0
Next == /\ step < MaxStep /\ step' = step + 1
        /\ IF n = 0 THEN Make
           ELSE \E k \in {RandomElement(1..12)} :
                  CASE k = 1 -> Make [] k = 2 -> Malformed [] k \in {3, 4} -> SetSpw [] k = 5 -> Estimate [] OTHER -> Ask
Spec == Init /\ [][Next]_vars

(* ----------------------------------------------------------------- properties *)
Asked == last.op = "ask"
(* an answer is the channels between its ends, and adjacent ranges share none and leave none out *)
Whole == Asked => \A i \in DOMAIN last.a.ranges :
   LET r == last.a.ranges[i] s == last.a.answer[i] IN
   In(last.a.first, last.a.end, r[1], r[2]) = IF s = <<>> THEN {} ELSE {k + last.a.first : k \in s[1]..s[2]}
Adjacent == Asked => \A i \in DOMAIN last.a.ranges :
   LET r == last.a.ranges[i] IN \A m \in r[1]..r[2] :
     LET A == In(last.a.first, last.a.end, r[1], m) B == In(last.a.first, last.a.end, m, r[2]) IN
     A \cap B = {} /\ A \cup B = In(last.a.first, last.a.end, r[1], r[2])
(* a range from a window's first channel to the end of its last one is the window *)
Back == \A i \in DOMAIN wins : Answer(0, n, 4 * wins[i][1], 4 * wins[i][2]) = <<wins[i][1], wins[i][2] - 1>>
Shown == ~Emit \/ PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
