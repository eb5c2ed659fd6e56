-------------------------------- MODULE Trim --------------------------------
(* Trimming data sets to the integrations whose LST all of them hold.        *)
(*                                                                           *)
(* A data set is a sequence of integrations, each at an LST given in units   *)
(* of a tenth of the tolerance: grid point * Step + offset.  The grid wraps  *)
(* around after Grid points.  Two LSTs agree if they differ by less than the *)
(* tolerance; the offsets occurring make agreement transitive.               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, Randomization

CONSTANTS Random, MaxStep, Emit, Grid, MaxSets, Lens

VARIABLES sets,  \* sequence of data sets: [lsts : sequence, day, off, wgts, std]
          last, step
vars == <<sets, last, step>>

Tol == 10
Step == 1000
Circle == Grid * Step
Offsets == {0, 4, -4}
Odd == 30
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Abs(x) == IF x < 0 THEN -x ELSE x
Dist(a, b) == LET d == Abs(a - b) % Circle IN IF d * 2 > Circle THEN Circle - d ELSE d
Agree(a, b) == Dist(a, b) < Tol

(* positions of a data set that all data sets hold *)
Keep(ss, i) == {n \in DOMAIN ss[i].lsts : \A j \in DOMAIN ss : \E m \in DOMAIN ss[j].lsts : Agree(ss[i].lsts[n], ss[j].lsts[m])}
Keeps(ss) == [i \in DOMAIN ss |-> Keep(ss, i)]
RECURSIVE Only(_, _, _)
Only(s, K, n) == IF n > Len(s) THEN <<>> ELSE (IF n \in K THEN <<s[n]>> ELSE <<>>) \o Only(s, K, n + 1)
Trimmed(ss) == [i \in DOMAIN ss |-> [ss[i] EXCEPT !.lsts = Only(@, Keep(ss, i), 1)]]

(* one data set: consecutive grid points from a start, one possibly missing, one possibly displaced *)
LstsOf(start, len, off, gap, odd) ==
  LET at(n) == (start + n - 1) * Step + off + (IF n = odd THEN Odd ELSE 0)
  IN Only([n \in 1..len |-> at(n) % Circle], (1..len) \ {gap}, 1)

Make(nsets) ==
  \E st \in Pick([1..nsets -> 0..4]), ln \in Pick([1..nsets -> Lens]), of \in Pick([1..nsets -> Offsets]),
     gp \in Pick([1..nsets -> 0..5]), od \in Pick([1..nsets -> -4..5]), wrap \in Pick({0, 0, Grid - 3}), grid \in Pick(1..8),
     wg \in Pick([1..nsets -> BOOLEAN]), sd \in Pick([1..nsets -> BOOLEAN]), dy \in Pick([1..nsets -> 0..2]) :
    /\ sets' = [i \in 1..nsets |->
                  [lsts |-> LstsOf(wrap + st[i], ln[i], of[i], IF gp[i] < ln[i] /\ gp[i] > 1 /\ od[i] <= 0 THEN gp[i] ELSE 0,
                                   IF od[i] <= ln[i] THEN od[i] ELSE 0),
                   day |-> dy[i], off |-> of[i], wgts |-> wg[i], std |-> sd[i]]]
    (* now and then one data set is of another grid *)
    /\ last' = [op |-> "make", sets |-> sets', other |-> IF grid = 1 THEN nsets ELSE 0]
Common(ss) == Keep(ss, 1) # {}
Trim == /\ IF last.op = "make" THEN last.other = 0 ELSE last.op = "trim"
        /\ \A i \in DOMAIN sets : Len(sets[i].lsts) > 1    \* spacing is not defined otherwise
        /\ Common(sets)
        /\ sets' = Trimmed(sets)
        /\ last' = [op |-> "trim", keep |-> Keeps(sets), before |-> sets]
Refuse == /\ last.op = "make" /\ last.other # 0
          /\ UNCHANGED sets /\ last' = [op |-> "refuse"]
Nothing == /\ last.op = "make" /\ last.other = 0 /\ ~Common(sets)
           /\ UNCHANGED sets /\ last' = [op |-> "nothing"]

Init == sets = <<>> /\ last = [op |-> "init"] /\ step = 0
Next == /\ step < MaxStep /\ step' = step + 1
        /\ IF step = 0 THEN IF Random THEN \E k \in {RandomElement(2..MaxSets)} : Make(k) ELSE \E k \in 2..MaxSets : Make(k)
           ELSE Refuse \/ Nothing \/ Trim
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- invariants *)
Did == last.op = "trim"
SameLength == Did => \A i, j \in DOMAIN sets : Len(sets[i].lsts) = Len(sets[j].lsts)
Aligned == Did => \A i, j \in DOMAIN sets : \A n \in DOMAIN sets[i].lsts : Agree(sets[i].lsts[n], sets[j].lsts[n])
Shared == Did => \A i \in DOMAIN sets : \A n \in DOMAIN last.before[i].lsts :
            (n \in last.keep[i]) <=> \A j \in DOMAIN sets : \E m \in DOMAIN last.before[j].lsts : Agree(last.before[i].lsts[n], last.before[j].lsts[m])
Idempotent == Did => Trimmed(sets) = sets
Shown == ~Emit \/ PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
