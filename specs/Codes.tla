-------------------------------- MODULE Codes --------------------------------
(* Integer codes of baselines, baseline-pairs and polarization pairs.       *)
(* A baseline-pair code has twelve digits, more than TLC's integers hold:   *)
(* it is kept as the pair of its six-digit halves.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Ants, Emit
PolNum == {-8, -7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4}
VARIABLE rec
Bl(a, b) == (a + 100) * 1000 + b + 100
UnBl(n) == <<(n \div 1000) - 100, (n % 1000) - 100>>
PolPair(p, q) == (20 + p) * 100 + 20 + q
UnPol(n) == <<(n \div 100) - 20, (n % 100) - 20>>
Init == \/ \E a, b \in Ants : rec = [kind |-> "bl", a |-> <<a, b>>, code |-> <<Bl(a, b)>>, back |-> UnBl(Bl(a, b))]
        \/ \E p, q \in PolNum : rec = [kind |-> "pol", a |-> <<p, q>>, code |-> <<PolPair(p, q)>>, back |-> UnPol(PolPair(p, q))]
        \/ \E a, b, c, d \in {x \in Ants : x \in {0, 1, 9, 99, 100, 350, 899} \/ x % 250 = 0} :
              rec = [kind |-> "blp", a |-> <<a, b, c, d>>, code |-> <<Bl(a, b), Bl(c, d)>>,
                     back |-> UnBl(Bl(a, b)) \o UnBl(Bl(c, d))]
Next == UNCHANGED rec
Spec == Init /\ [][Next]_rec
Lossless == rec.back = rec.a
(* codes have fixed width, so concatenating the halves is injective *)
Width == /\ rec.kind # "pol" => \A i \in DOMAIN rec.code : rec.code[i] \in 100100..999999
         /\ rec.kind = "pol" => rec.code[1] \in 1000..9999
Shown == Emit => PrintT("@@" \o ToJson(rec))
=============================================================================
