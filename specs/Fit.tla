--------------------------------- MODULE Fit ---------------------------------
(* Data sets entered into an analysis, and whether they fit together.         *)
(*                                                                            *)
(* A data set has a number of times and of channels, a channel width (three   *)
(* sorts, the first two the same for all practical purposes), a start in LST  *)
(* and a first frequency (in steps of which one is within the tolerance and   *)
(* four are not), a kind of phasing, and polarizations beside "xx".           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, Randomization

CONSTANTS Random, MaxStep, Emit

VARIABLES in,   \* sequence of data sets entered
          last, step
vars == <<in, last, step>>
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Mostly(x, S, n) == IF Random THEN {IF RandomElement(1..n) = 1 THEN RandomElement(S) ELSE x} ELSE S \cup {x}

Shifts == {0, 1, 4}
Names == <<"a", "b", "a.1", "dset1", "dset0", "dset2">>
PolNames == <<"xx", "yy", "xy", "yx">>
Base == [nt |-> 3, nf |-> 6, df |-> 0, t0 |-> 0, f0 |-> 0, ph |-> "drift", pols |-> {1}]
Alone(d, what, h) ==
  CASE what = 1 -> [d EXCEPT !.nt = <<3, 1, 1, 4>>[1 + (h % 4)]]
    [] what = 2 -> [d EXCEPT !.nf = 6 + (h % 3)]
    [] what = 3 -> [d EXCEPT !.df = h % 3]
    [] what = 4 -> [d EXCEPT !.t0 = <<0, 1, 4>>[1 + (h % 3)]]
    [] what = 5 -> [d EXCEPT !.f0 = <<0, 1, 4>>[1 + (h % 3)]]
    [] what = 6 -> [d EXCEPT !.ph = <<"drift", "sidereal", "sidereal", "two">>[1 + (h % 4)]]
    [] OTHER -> d
(* a data set differs from the common one in two things at the most *)
What(x) == CASE x < 8 -> x [] x \in {8, 9} -> 4 [] x \in {10, 11} -> 5 [] OTHER -> 0
SomeSet(h, all, p) == [Alone(Alone(Base, all[1], all[2]), What(h[1]), h[2]) EXCEPT !.pols = {1} \cup p]

(* -------------------------------------------------------------- what fits *)
Same(ds, f(_)) == \A i, j \in DOMAIN ds : f(ds[i]) = f(ds[j])
Fits(ds) == /\ Same(ds, LAMBDA d : d.nt)
            /\ Same(ds, LAMBDA d : d.nf)
            /\ Same(ds, LAMBDA d : d.df \in {0, 1})
            /\ Same(ds, LAMBDA d : d.ph)
            /\ \A i \in DOMAIN ds : ds[i].ph # "two"
Apart(ds, f(_)) == \E i, j \in DOMAIN ds : f(ds[i]) - f(ds[j]) > 1
LateBy(ds) == Apart(ds, LAMBDA d : d.t0)
Detuned(ds) == Apart(ds, LAMBDA d : d.f0)

Rec(op, r) == last' = [op |-> op, a |-> r]

(* -------------------------------------------------------------- entering *)
Wrongs == {"wgts", "std", "labels", "kind", "wkind", "skind", "single", "cals"}
Add ==
  \E n \in Pick(1..3), form \in Pick({"list", "list", "tuple", "dict", "one"}), wrong \in Mostly("", Wrongs, 5),
     all \in Mostly(<<0, 0>>, (1..6) \X (0..11), 2), h \in Pick([1..3 -> (1..14) \X (0..11)]), p \in Pick([1..3 -> SUBSET (2..4)]),
     named \in Pick(BOOLEAN), nm \in Pick([1..3 -> 1..6]), fresh \in Mostly(FALSE, {TRUE}, 2),
     w \in Pick([1..3 -> BOOLEAN]), s \in Pick([1..3 -> BOOLEAN]), no \in Pick({"", "", "wgts", "std"}) :
    LET m == IF form = "one" THEN 1 ELSE n
        new == [i \in 1..m |-> SomeSet(h[i], all, p[i])]
        distinct == Cardinality({nm[i] : i \in 1..m}) = m
        bad == wrong # "" /\ form \in {"list", "tuple"} /\ (wrong = "labels" => named)
        lab == IF form = "dict" THEN (IF distinct THEN [i \in 1..m |-> Names[nm[i]]] ELSE [i \in 1..m |-> Names[i]])
               ELSE IF named THEN [i \in 1..m |-> Names[nm[i]]] ELSE <<>>
        room == IF fresh THEN 0 ELSE Len(in)
    IN /\ in' = IF bad THEN IF fresh THEN <<>> ELSE in ELSE IF room + m > 5 THEN new ELSE (IF fresh THEN <<>> ELSE in) \o new
       /\ Rec("add", [fresh |-> fresh \/ (~bad /\ room + m > 5), form |-> form, wrong |-> IF bad THEN wrong ELSE "", sets |-> new,
                      labels |-> lab, wgts |-> [i \in 1..m |-> w[i]], std |-> [i \in 1..m |-> s[i]],
                      no |-> no, count |-> Len(in')])

(* ------------------------------------------------------------- questions *)
Vias == {"validate", "validate", "validate", "pspec", "broadcast", "rephase"}
Check ==
  \E via \in Pick(Vias), quiet \in Mostly(FALSE, {TRUE}, 4), i \in Pick(1..5), j \in Pick(1..5) :
    /\ Rec("check", [via |-> via, quiet |-> quiet, ok |-> Fits(in), late |-> LateBy(in), detuned |-> Detuned(in),
                     pair |-> <<(i - 1) % Len(in), (j - 1) % Len(in)>>])
    /\ UNCHANGED in
(* the lists of weights, errors or labels have become longer or shorter than the list of data sets *)
Spoilt ==
  \E what \in Pick({"wgts", "dsets_std", "labels"}), more \in Pick(BOOLEAN), via \in Pick(Vias) :
    /\ Rec("spoilt", [what |-> what, more |-> more, via |-> via]) /\ UNCHANGED in
AskPol ==
  \E i \in Pick(1..5), j \in Pick(1..5), p \in Pick(1..4), q \in Pick(1..4), fp \in Pick({"str", "int"}), fq \in Pick({"str", "int"}),
     named \in Pick({<<FALSE, FALSE>>, <<TRUE, TRUE>>, <<FALSE, TRUE>>}), form \in Mostly("tuple", {"list", "float"}, 6) :
    LET a == 1 + ((i - 1) % Len(in)) b == 1 + ((j - 1) % Len(in)) IN
    /\ Rec("pol", [sets |-> <<a, b>>, pols |-> <<PolNames[p], PolNames[q]>>, as |-> <<fp, fq>>, named |-> named, form |-> form,
                   yes |-> p \in in[a].pols /\ q \in in[b].pols])
    /\ UNCHANGED in
(* spectra of several polarization pairs: those the two data sets do not have are left out *)
AllPairs == (1..4) \X (1..4)
Spectra ==
  \E i \in Pick(1..5), j \in Pick(1..5), k \in Pick(1..4), q \in Pick([1..4 -> AllPairs]), at \in Pick(1..4), as \in Pick({"str", "int"}) :
    LET a == 1 + ((i - 1) % Len(in)) b == 1 + ((j - 1) % Len(in))
        asked == [m \in 1..k |-> IF m = at \/ k = 1 THEN <<1, 1>> ELSE q[m]]
        uniq == IF Cardinality({asked[m] : m \in 1..k}) = k THEN asked ELSE <<<<1, 1>>>>
    IN /\ Rec("spectra", [pair |-> <<a, b>>, pols |-> [m \in DOMAIN uniq |-> <<PolNames[uniq[m][1]], PolNames[uniq[m][2]]>>], as |-> as, ok |-> Fits(in),
                          has |-> [m \in DOMAIN uniq |-> uniq[m][1] \in in[a].pols /\ uniq[m][2] \in in[b].pols]])
       /\ UNCHANGED in
(* antennas 0, 1, 2 with the baselines of a triangle but one *)
Held == {<<0, 1>>, <<1, 2>>}
AskKey ==
  \E i \in Pick(1..5), kind \in Pick({"pol", "bl", "blpol", "pol", "bl", "blpol", "four"}), a \in Pick(0..2), b \in Pick(0..2), p \in Pick(1..4),
     bare \in Pick(BOOLEAN), num \in Pick(BOOLEAN) :
    LET d == 1 + ((i - 1) % Len(in))
        bl == <<a, b>> \in Held \/ <<b, a>> \in Held
        (* whether all that a data set has of a baseline can be turned is not for the data set to say *)
        as == IF kind = "bl" /\ <<a, b>> \notin Held /\ ((3 \in in[d].pols) # (4 \in in[d].pols)) THEN "blpol" ELSE kind
        (* a baseline the other way around has its polarizations the other way around too *)
        turned == IF <<a, b>> \in Held THEN p ELSE <<1, 2, 4, 3>>[p]
    IN /\ Rec("key", [set |-> d, kind |-> as, bl |-> <<a, b>>, pol |-> PolNames[p], bare |-> bare, num |-> num,
                      yes |-> CASE as = "pol" -> p \in in[d].pols [] as = "bl" -> bl [] OTHER -> bl /\ turned \in in[d].pols])
       /\ UNCHANGED in

Init == in = <<>> /\ last = [op |-> "init", a |-> <<>>] /\ step = 0
Next == /\ step < MaxStep /\ step' = step + 1
        /\ IF in = <<>> THEN Add
           ELSE \E k \in {RandomElement(1..10)} :
                  CASE k <= 3 -> Add [] k <= 6 -> Check [] k = 7 -> Spoilt [] k = 8 -> AskPol [] k = 10 -> Spectra [] OTHER -> AskKey
Spec == Init /\ [][Next]_vars

(* ----------------------------------------------------------------- properties *)
(* fitting is a matter of pairs, and not of their order *)
Pairs == Fits(in) <=> \A i, j \in DOMAIN in : Fits(<<in[i], in[j]>>)
Turned == Fits(in) <=> Fits(Reverse(in))
Warned == (LateBy(in) <=> LateBy(Reverse(in))) /\ (Detuned(in) <=> Detuned(Reverse(in)))
(* being apart from another data set is being apart from the first, as long as the steps are these *)
First == \A i, j \in DOMAIN in : in[i].t0 - in[j].t0 > 1 => \E k \in DOMAIN in : in[k].t0 - in[1].t0 \notin {-1, 0, 1}
Refused == [][(last'.op = "add" /\ last'.a.wrong # "" /\ ~last'.a.fresh) => in' = in]_vars
Asking == [][last'.op # "add" => in' = in]_vars
Shown == ~Emit \/ PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
