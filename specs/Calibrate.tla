------------------------------ MODULE Calibrate ------------------------------
(* Data sets entered into an analysis together with their calibrations.       *)
(*                                                                            *)
(* A calibration gives every antenna a (complex) gain 2^k i^m per feed, time  *)
(* and channel, and flags.  The calibrated visibility of antennas a and b is  *)
(* the raw one over g_a times the conjugate of g_b, so that exponents add up: *)
(* what was divided by is 2^(ka + kb) i^(ma - mb).  Data sets, their error    *)
(* data sets and calibrations are objects of the caller, and may be entered   *)
(* more than once.                                                            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, Randomization

CONSTANTS Random, MaxStep, Emit

VARIABLES cals, entered, last, step
vars == <<cals, entered, last, step>>
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
(* mostly x, sometimes (one time in n) one of S *)
Mostly(x, S, n) == IF Random THEN {IF RandomElement(1..n) = 1 THEN RandomElement(S) ELSE x} ELSE S \cup {x}
Bern(n) == IF Random THEN {RandomElement(1..n) = 1} ELSE BOOLEAN

Ants == 0..2
Feeds == {"x", "y"}
Times == 1..2
Chans == 1..3
Bls == <<<<0, 1>>, <<1, 2>>, <<2, 0>>>>
Pols == <<"xx", "yy", "xy", "yx">>
Feed(p) == CASE p = "xx" -> <<"x", "x">> [] p = "yy" -> <<"y", "y">> [] p = "xy" -> <<"x", "y">> [] OTHER -> <<"y", "x">>
NR == 4     \* raw data sets of the caller
NC == 3     \* calibrations
Sites == Ants \X Feeds \X Times \X Chans

(* a calibration: exponents by arithmetic on a few numbers, flags on some sites; times it has; how it is meant *)
Gain(h) == [s \in Sites |-> <<((h * (s[1] + 2) + s[3] * (h \div 7) + s[4] * (h \div 3) + (IF s[2] = "x" THEN h \div 11 ELSE 0)) % 5) - 2,
                              (h * s[1] + s[3] + s[4] * (h \div 5) + (IF s[2] = "x" THEN h \div 2 ELSE 1)) % 4>>]
Bare == [gain |-> Gain(0), flags |-> {}, divide |-> TRUE, late |-> FALSE, no |-> 0]

At(a, f, t, c) == <<a, f, t, c>>
(* what a raw visibility has been divided by; and whether the calibration flags it *)
Over(cal, b, p, t, c) ==
  LET g == cal.gain[At(Bls[b][1], Feed(p)[1], t, c)] h == cal.gain[At(Bls[b][2], Feed(p)[2], t, c)]
      k == g[1] + h[1] m == (g[2] - h[2]) % 4
  IN IF cal.divide THEN <<k, m>> ELSE <<0 - k, (4 - m) % 4>>
Cut(cal, b, p, t, c) == At(Bls[b][1], Feed(p)[1], t, c) \in cal.flags \/ At(Bls[b][2], Feed(p)[2], t, c) \in cal.flags
Cells == (1..3) \X (1..4) \X Times \X Chans
Effect(cal, prop) ==
  [over |-> [b \in 1..3 |-> [p \in 1..4 |-> [t \in Times |-> [c \in Chans |-> Over(cal, b, Pols[p], t, c)]]]],
   cut |-> IF prop THEN {x \in Cells : Cut(cal, x[1], Pols[x[2]], x[3], x[4])} ELSE {}]
Plain == [over |-> <<>>, cut |-> {}]

Make ==
  \E k \in (IF step < NC THEN {step + 1} ELSE Pick(1..NC)), h \in Pick(1..200), n \in Pick({0, 1, 4, 12}), div \in Mostly(TRUE, {FALSE}, 3), late \in Bern(8) :
  \E r \in Pick([Sites -> 1..36]) :
    /\ cals' = [cals EXCEPT ![k] = [gain |-> Gain(h), flags |-> {s \in Sites : r[s] <= n}, divide |-> div, late |-> late, no |-> step + 1]]
    /\ last' = [op |-> "make", k |-> k, gain |-> {<<s, Gain(h)[s]>> : s \in Sites}, flags |-> cals'[k].flags, divide |-> div, late |-> late]
    /\ UNCHANGED entered

(* an entry: raw data set, error data set (or 0), calibration (or 0) *)
Entry(e, prop) == [raw |-> e.raw, std |-> e.std, cal |-> e.cal, effect |-> IF e.cal = 0 THEN Plain ELSE Effect(cals[e.cal], prop)]
Usable(es) == \A i \in DOMAIN es : es[i].cal # 0 => ~cals[es[i].cal].late
Requests == [1..3 -> [raw : 1..NR, std : 0..NR, cal : 0..NC]]

Add ==
  \E n \in Pick(1..3), r \in Pick(Requests), form \in Pick({"list", "list", "tuple", "dict", "one"}), prop \in Pick(BOOLEAN),
     how \in Mostly("each", {"same", "none"}, 3), nostd \in Bern(2), wrong \in Mostly("", {"short", "kind"}, 7), more \in Bern(3) :
    LET m == IF form = "one" THEN 1 ELSE n
        es == [i \in 1..m |-> [raw |-> IF how = "same" THEN r[1].raw ELSE r[i].raw, std |-> IF nostd THEN 0 ELSE r[i].std,
                               cal |-> CASE how = "none" -> 0 [] how = "same" /\ r[1].cal # 0 -> r[1].cal [] OTHER -> r[i].cal]]
        bad == wrong # "" /\ form \in {"list", "tuple"} /\ how # "none"
        ok == ~bad /\ Usable(es)
        kept == IF more THEN entered ELSE <<>>
    IN /\ entered' = IF ok THEN kept \o [i \in 1..m |-> Entry(es[i], prop)] ELSE IF more THEN entered ELSE <<>>
       /\ last' = [op |-> "add", fresh |-> ~more, form |-> form, entries |-> es, prop |-> prop, ok |-> ok, wrong |-> IF bad THEN wrong ELSE "",
                   nocals |-> how = "none", nostd |-> nostd, entered |-> entered']
       /\ UNCHANGED cals

(* a whole run with data sets in memory *)
Run ==
  \E n \in Pick(1..2), r \in Pick(Requests), prop \in Pick(BOOLEAN), one \in Bern(3), nostd \in Bern(2) :
    LET m == n
        es == [i \in 1..m |-> [raw |-> r[i].raw, std |-> IF nostd THEN 0 ELSE IF r[i].std = 0 THEN 1 ELSE r[i].std,
                               cal |-> IF one THEN 1 + (r[1].cal % NC) ELSE 1 + (r[i].cal % NC)]]
        ok == Usable(es)
    IN /\ entered' = IF ok THEN [i \in 1..m |-> Entry(es[i], prop)] ELSE <<>>
       /\ last' = [op |-> "run", entries |-> es, prop |-> prop, ok |-> ok, one |-> one, nostd |-> nostd, entered |-> entered']
       /\ UNCHANGED cals

Init == cals = [k \in 1..NC |-> Bare] /\ entered = <<>> /\ last = [op |-> "init"] /\ step = 0
Next == /\ step < MaxStep /\ step' = step + 1
        /\ IF step < NC THEN Make ELSE \E k \in {RandomElement(1..8)} : CASE k = 1 -> Make [] k = 8 -> Run [] OTHER -> Add
Spec == Init /\ [][Next]_vars

(* ----------------------------------------------------------------- properties *)
(* an entry depends on its own raw data and calibration only, and stays what it is when others are added *)
Own == [][(last'.op = "add" /\ ~last'.fresh) => Len(entered') >= Len(entered) /\ SubSeq(entered', 1, Len(entered)) = entered]_vars
Refused == [][(last'.op = "add" /\ ~last'.fresh /\ ~last'.ok) => entered' = entered]_vars
Uncalibrated == \A i \in DOMAIN entered : entered[i].cal = 0 => entered[i].effect = Plain
(* the exponents around a triangle of baselines in one polarization close: phases cancel *)
Closure == last.op = "make" => LET cal == cals[last.k] IN
   \A t \in Times, c \in Chans, p \in {"xx", "yy"} :
      ((Over(cal, 1, p, t, c)[2] + Over(cal, 2, p, t, c)[2] + Over(cal, 3, p, t, c)[2]) % 4) = 0
Shown == ~Emit \/ PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
