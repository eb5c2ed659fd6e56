------------------------------ MODULE Bootstrap ------------------------------
(* Bootstrap resampling of baseline pairs.                                    *)
(*                                                                            *)
(* A sample of a group of pairs is drawn with replacement: as many draws as   *)
(* there are pairs of the group in the spectra objects, each draw any of them *)
(* (a pair in two objects can be drawn from either).  A pair counts as often  *)
(* as it was drawn.  The average of an object over a group is over what was   *)
(* drawn from that object.                                                    *)
(*                                                                            *)
(* Variables: the objects (the pairs each holds), the groups, the draws made  *)
(* so far in the current sample and the samples completed.                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS Configs,    \* the cases: set of <<sequence of sets of pairs, sequence of groups>>
          NSamples, Emit

VARIABLES objs, groups, draws, samples
vars == <<objs, groups, draws, samples>>
Empty == <<>>

(* what can be drawn for group g: object and position in the group, in the order of objects *)
Avail(os, g) == LET of(i) == SelectSeq([j \in DOMAIN g |-> <<i, j>>], LAMBDA x : g[x[2]] \in os[x[1]])
                IN FlattenSeq([i \in DOMAIN os |-> of(i)])
Slots == UNION {{<<k, n>> : n \in DOMAIN Avail(objs, groups[k])} : k \in DOMAIN groups}
Drawn == DOMAIN draws
Complete == Drawn = Slots
(* weight of the m-th available pair of group k *)
Weight(dr, k, m) == Cardinality({x \in DOMAIN dr : x[1] = k /\ dr[x] = m})
WeightsOf(dr) == [k \in DOMAIN groups |-> [m \in DOMAIN Avail(objs, groups[k]) |-> Weight(dr, k, m)]]

Good(os, gs) == /\ \A k \in DOMAIN gs : Len(Avail(os, gs[k])) > 0
                /\ \A i, j \in DOMAIN gs : \A a \in DOMAIN gs[i], b \in DOMAIN gs[j] : <<i, a>> # <<j, b>> => gs[i][a] # gs[j][b]
ASSUME \A x \in Configs : Good(x[1], x[2])
Init == /\ \E x \in Configs : objs = x[1] /\ groups = x[2]
        /\ draws = Empty /\ samples = Empty

Draw == /\ ~Complete /\ Len(samples) < NSamples
        /\ LET s == CHOOSE x \in Slots \ Drawn : \A y \in Slots \ Drawn : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
           IN \E m \in DOMAIN Avail(objs, groups[s[1]]) : draws' = draws @@ (s :> m)
        /\ UNCHANGED <<objs, groups, samples>>
EndSample == /\ Complete /\ Len(samples) < NSamples
             /\ samples' = Append(samples, WeightsOf(draws)) /\ draws' = Empty
             /\ UNCHANGED <<objs, groups>>
Next == Draw \/ EndSample
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- properties *)
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q) + Total(Tail(q))
(* the weights of a group add up to the number of pairs available *)
Sums == \A i \in DOMAIN samples : \A k \in DOMAIN groups : Total(samples[i][k]) = Len(samples[i][k])
(* a draw is of something available, and nothing else changes meanwhile *)
InRange == \A x \in Drawn : draws[x] \in DOMAIN Avail(objs, groups[x[1]])
(* every way of distributing the draws over a group occurs: from any state a complete sample with any last choice is possible *)
Free == (~Complete /\ Len(samples) < NSamples) => ENABLED Draw
Shown == ~Emit \/ ~(Len(samples) = 1 /\ draws = Empty)
         \/ PrintT("@@" \o ToJson([objs |-> objs, groups |-> groups, wts |-> samples[1]]))
=============================================================================
