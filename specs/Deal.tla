-------------------------------- MODULE Deal --------------------------------
(* Dealing n baselines, in a given order, into k groups of equal size, the    *)
(* remainder going to the last group or to nobody.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxN, Emit
VARIABLES n, k, keep, hands, next
vars == <<n, k, keep, hands, next>>
Size == n \div k
Rem == n - k * Size
Init == /\ n \in 1..MaxN /\ k \in 1..MaxN /\ k <= n /\ keep \in BOOLEAN
        /\ hands = [i \in 1..k |-> <<>>] /\ next = 1
Full == {i \in 1..k : Len(hands[i]) >= Size}
Deal == /\ next <= n
        /\ IF Full # 1..k
           THEN LET i == CHOOSE j \in (1..k) \ Full : \A m \in (1..k) \ Full : j <= m
                IN hands' = [hands EXCEPT ![i] = Append(@, next)]
           ELSE hands' = IF keep THEN [hands EXCEPT ![k] = Append(@, next)] ELSE hands
        /\ next' = next + 1 /\ UNCHANGED <<n, k, keep>>
Next == Deal
Spec == Init /\ [][Next]_vars
Done == next > n
Dealt == {x \in 1..n : \E i \in 1..k : \E j \in DOMAIN hands[i] : hands[i][j] = x}
Fair == Done => \A i \in 1..k - 1 : Len(hands[i]) = Size
Last == Done => Len(hands[k]) = Size + (IF keep THEN Rem ELSE 0)
Once == Cardinality(Dealt) = LET RECURSIVE S(_)
                                 S(i) == IF i = 0 THEN 0 ELSE Len(hands[i]) + S(i - 1)
                             IN S(k)
All == (Done /\ keep) => Dealt = 1..n
Shown == ~Emit \/ ~Done \/ PrintT("@@" \o ToJson([n |-> n, k |-> k, keep |-> keep, hands |-> hands]))
=============================================================================
