------------------------------ MODULE Average ------------------------------
(* Incoherent averaging of power spectra over baseline-pair groups and time. *)
(*                                                                           *)
(* Every cell <<window, pair, time, polarization>> of the original object    *)
(* carries an integration time, a sample count and an error per delay, all   *)
(* small exact numbers, so the specification computes every weight exactly.  *)
(* A cell of the averaged object is described by the original cells that     *)
(* enter it, their multiplicities m/mden and their weights w per delay class *)
(* (offset of the delay from zero), with W = sum m w:                        *)
(*    data, window functions          sum (m w / W) x                        *)
(*    bandpass weights, integration   the same with the weights of the first *)
(*                                    delay                                  *)
(*    samples                         sum (m / mden) n                       *)
(*    statistics (squared)            sum (m mden w^2 / W^2) e^2             *)
(*    covariances                     sum (m mden w_i w_j / (W_i W_j)) C_ij  *)
(* and of W = 0: data zero, error infinite.                                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Spws, Blps, Tps, Pols, Random, MaxStep, Emit
VARIABLES obj, last, step
vars == <<obj, last, step>>

Nil == [nil |-> TRUE]
Nd == [s \in 0..4 |-> <<6, 4, 8, 7, 4>>[s + 1]]
TRank == [t \in 0..6 |-> <<0, 3, 5, 6, 1, 4, 2>>[t + 1]]   \* order in time of the time pairs
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Bern(n) == IF Random THEN {RandomElement(1..n) = 1} ELSE BOOLEAN
Sub(S) == SUBSET S \ {{}}
Small(X, n) == {x \in Sub(X) : Cardinality(x) <= n}

(* ------------------------------------------------- numbers of the cells *)
Mix(seed, c) == ((seed + 7 * c[1] + 13 * c[2] + 29 * c[3] + 5 * c[4]) * ((seed % 11) + 3)) % 101
IntOf(o, c) == IF o.even THEN 2 ELSE LET x == Mix(o.seed, c) % 7 IN IF x > 3 THEN x - 3 ELSE x       \* 0..3
NsOf(o, c) == IF o.even THEN 1 ELSE 1 + (Mix(o.seed + 1, c) % 2)
ErrOf(o, c) == LET x == Mix(o.seed + 2, c) % 9 IN IF x < 6 THEN x % 3 ELSE IF x = 6 THEN 3 ELSE IF x = 7 THEN 4 ELSE 1
                                                                      \* 3 infinite, 4 undefined
Exp(e, d) == (e + d) % 3                          \* the error at delay offset d is 2^Exp
WErr(e, d) == IF e > 2 THEN 0 ELSE <<16, 4, 1>>[Exp(e, d) + 1]
Weight(o, c, how, d) == IF how = "err" THEN WErr(ErrOf(o, c), d) ELSE IntOf(o, c) * IntOf(o, c) * NsOf(o, c)
Classes == 0..4

(* ------------------------------------------------------------- requests *)
Pairs(o) == {r[1] : r \in o.rows}
TimesOf(o, b) == SetToSortSeq({r[2] : r \in {r \in o.rows : r[1] = b}}, LAMBDA x, y : TRank[x] < TRank[y])
Seq0(S, n) == LET q == SetToSeq(S) IN [i \in DOMAIN q |-> q[((i + n) % Len(q)) + 1]]
(* entries of a group: the pairs assigned to it, some of them repeated *)
RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flatten(Tail(q))
Groups(o, seed, rep) ==
  LET bs == Seq0(Pairs(o), seed)
      nb == Len(bs)
      k == 1 + (seed % 3)
      g(i) == ((seed + bs[i] * 7) * (3 + (seed % 5))) % (k + 1)
      grp(j) == LET q == SelectSeq([i \in 1..nb |-> i], LAMBDA i : g(i) = j)
                IN Flatten([i \in DOMAIN q |-> IF rep /\ (seed + q[i]) % 3 = 0 THEN <<bs[q[i]], bs[q[i]]>> ELSE <<bs[q[i]]>>])
      G == SelectSeq([j \in 1..k |-> grp(j)], LAMBDA q : q # <<>>)
  IN IF rep /\ Len(G) >= 2 /\ seed % 4 = 0 THEN [G EXCEPT ![2] = Append(@, G[1][1])] ELSE G   \* a pair in two groups
WtOf(seed, i, j) == ((seed * 3 + i * 5 + j * 7) % 4)
Weights(G, seed) == [i \in DOMAIN G |-> [j \in DOMAIN G[i] |-> WtOf(seed, i, j)]]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))

Ungrouped(o, G) == Pairs(o) \ UNION {ToSet(G[i]) : i \in DOMAIN G}
(* all groups that are formed: those asked for, and one per remaining pair *)
Formed(o, rq) ==
  IF rq.groups = <<>> THEN [i \in 1..Cardinality(Pairs(o)) |-> <<SetToSeq(Pairs(o))[i]>>]
  ELSE rq.groups \o (IF o.win = "exact" THEN <<>> ELSE LET q == SetToSeq(Ungrouped(o, rq.groups)) IN [i \in DOMAIN q |-> <<q[i]>>])
FormedW(o, rq) ==
  LET F == Formed(o, rq)
  IN [i \in DOMAIN F |-> IF i <= Len(rq.wts) THEN rq.wts[i] ELSE [j \in DOMAIN F[i] |-> 1]]
Accepted(o, rq) ==
  /\ rq.bad = "no"
  /\ rq.wts # <<>> => rq.groups # <<>>
  /\ \A i \in DOMAIN rq.wts : Sum(rq.wts[i]) > 0
  /\ rq.how = "err" => "err" \in o.stats
  /\ rq.field \subseteq o.stats
  /\ ~rq.tavg => \A i \in DOMAIN rq.groups : \A j \in DOMAIN rq.groups[i] :
        Len(TimesOf(o, rq.groups[i][j])) = Len(TimesOf(o, rq.groups[i][1]))

(* ---------------------------------------------------------- the average *)
(* one group, window, polarization; at = position in time, 0 for all times *)
CellOf(o, rq, grp, wts, s, p, at) ==
  LET tot == Sum(wts)
      mden == IF rq.norm THEN tot ELSE 1
      mult == [j \in DOMAIN wts |-> IF rq.norm THEN wts[j] * Len(wts) ELSE wts[j]]
      mem(j) == LET ts == TimesOf(o, grp[j])
                IN IF at = 0 THEN [i \in DOMAIN ts |-> <<grp[j], ts[i], mult[j]>>] ELSE <<<<grp[j], ts[at], mult[j]>>>>
      ms == SelectSeq(Flatten([j \in DOMAIN grp |-> IF mult[j] = 0 THEN <<>> ELSE mem(j)]), LAMBDA m : m[3] > 0)
      w(m, d) == Weight(o, <<s, m[1], m[2], p>>, rq.how, d)
      first == TimesOf(o, grp[1])
      c0 == IF o.folded THEN 1 ELSE Nd[s] \div 2
      W == [d \in Classes |-> Sum([i \in DOMAIN ms |-> ms[i][3] * w(ms[i], d)])]
  IN [s |-> s, p |-> p, b |-> grp[1], ts |-> IF at = 0 THEN first ELSE <<first[at]>>, mden |-> mden,
      mem |-> [i \in DOMAIN ms |-> [b |-> ms[i][1], t |-> ms[i][2], m |-> ms[i][3],
                                   w |-> [d \in 1..5 |-> w(ms[i], d - 1)]]],
      W |-> [d \in 1..5 |-> W[d - 1]],
      ns |-> Sum([i \in DOMAIN ms |-> ms[i][3] * NsOf(o, <<s, ms[i][1], ms[i][2], p>>)]),
      integ |-> Sum([i \in DOMAIN ms |-> ms[i][3] * w(ms[i], c0) * IntOf(o, <<s, ms[i][1], ms[i][2], p>>)]),
      W0 |-> W[c0]]
CellsOf(o, rq) ==
  LET F == Formed(o, rq)
      V == FormedW(o, rq)
      idx == UNION {{<<i, at>> : at \in IF rq.tavg THEN {0} ELSE DOMAIN TimesOf(o, F[i][1])} : i \in DOMAIN F}
  IN {CellOf(o, rq, F[x[1]], V[x[1]], s, p, x[2]) : x \in idx, s \in ToSet(o.spws), p \in o.pols}
Kept(o, rq) == rq.field \cup (IF rq.how = "err" THEN {"err"} ELSE {})
AvgObj(o, rq) == [kind |-> "avg", spws |-> o.spws, pols |-> o.pols, cells |-> CellsOf(o, rq), folded |-> o.folded,
                  pre |-> o.folded, stats |-> Kept(o, rq), cov |-> o.cov, win |-> o.win]

(* ---------------------------------------------------------------- laws *)
(* averaging in time first and then over the group gives the same weights as averaging everything at once,
   zero-weight members do not matter, and the weights sum to one *)
ByPair(c, b) == SelectSeq(c.mem, LAMBDA m : m.b = b)
Law(c) == \A d \in 1..5 :
   /\ Sum([i \in DOMAIN c.mem |-> c.mem[i].m * c.mem[i].w[d]]) = c.W[d]
   /\ LET nz == SelectSeq(c.mem, LAMBDA m : m.w[d] # 0)
      IN Sum([i \in DOMAIN nz |-> nz[i].m * nz[i].w[d]]) = c.W[d]
   /\ \A i \in DOMAIN c.mem :
        LET q == ByPair(c, c.mem[i].b)
            Wk == Sum([j \in DOMAIN q |-> q[j].w[d]])   \* all copies of the pair
            Mk == Sum([j \in DOMAIN q |-> q[j].m * q[j].w[d]])
        IN \* (w / Wk) * (Mk / W) summed over the copies = sum (m w) / W
           (\A j, k \in DOMAIN q : q[j].m = q[k].m) => c.mem[i].w[d] * Mk * 1 = Wk * c.mem[i].m * c.mem[i].w[d]
AvgLaws == obj # Nil /\ obj.kind = "avg" => \A c \in obj.cells : Law(c)

(* -------------------------------------------------------------- actions *)
Rec(op, args, ok, o) == last' = [op |-> op, args |-> args, ok |-> ok, obj |-> o]
Cells(o) == {<<s, r[1], r[2], p>> : s \in ToSet(o.spws), r \in o.rows, p \in o.pols}
Show(o) == IF o.kind = "raw"
           THEN [f \in DOMAIN o \cup {"num"} |-> IF f = "num"
                   THEN {<<c, IntOf(o, c), NsOf(o, c), ErrOf(o, c)>> : c \in Cells(o)} ELSE o[f]]
           ELSE o

Styles == {{}, {"err"}, {"err", "cov"}, {"err", "noise_1_of_2", "win"}, {"noise_1_of_2", "cov", "win"}, {"err", "exact"}, {"exact", "noise_1_of_2", "cov"}}
Make ==
  \E S \in Pick(Small(Spws, 3)), B \in Pick(Small(Blps, 4)), T \in Pick(Small(Tps, 4)), P \in Pick(Small(Pols, 2)),
     f \in Pick(Styles), seed \in Pick(0..999), even \in Bern(6) :
   \E q \in Pick({SetToSeq(S), Reverse(SetToSeq(S))}), drop \in Pick({{}} \cup {{x} : x \in B \X T}) :
    LET R == IF (B \X T) \ drop = {} THEN B \X T ELSE (B \X T) \ drop
        o == [kind |-> "raw", spws |-> q, rows |-> R, pols |-> P, folded |-> FALSE, stats |-> f \cap {"err", "noise_1_of_2"},
              cov |-> "cov" \in f, win |-> IF "exact" \in f THEN "exact" ELSE IF "win" \in f THEN "plain" ELSE "no",
              seed |-> seed, even |-> even]
    IN obj' = o /\ Rec("make", [x |-> 0], TRUE, Show(o))

Fold == /\ obj # Nil /\ ~obj.folded
        /\ obj' = [obj EXCEPT !.folded = TRUE] /\ Rec("fold", [x |-> 0], TRUE, Show([obj EXCEPT !.folded = TRUE]))

SelectAny ==
  /\ obj # Nil
  /\ \E B \in Pick(Sub({IF obj.kind = "raw" THEN x[1] ELSE x.b : x \in IF obj.kind = "raw" THEN obj.rows ELSE obj.cells})),
        P \in Pick(Sub(obj.pols)) :
       LET o == IF obj.kind = "raw" THEN [obj EXCEPT !.rows = {r \in @ : r[1] \in B}, !.pols = P]
                ELSE [obj EXCEPT !.cells = {c \in @ : c.b \in B /\ c.p \in P}, !.pols = P]
       IN obj' = o /\ Rec("select", [blps |-> B, pols |-> P], TRUE, Show(o))

Io == /\ obj # Nil /\ obj' = obj /\ Rec("io", [x |-> 0], TRUE, Show(obj))

Average ==
  /\ obj # Nil /\ obj.kind = "raw"
  /\ \E seed \in Pick(0..199), rep \in Bern(4), grouped \in Bern(5), weighted \in Bern(3), norm \in Bern(4), tavg \in Bern(2),
        how \in Pick({"ints", "ints2", "err"}), field \in Pick(Sub({"err", "noise_1_of_2"}) \cup {{}}), keep \in Bern(6), inplace \in Bern(2),
        bad \in Pick({"no", "no2", "no3", "no4", "no5", "no6", "no7", "no8", "no9", "pair", "shape", "field", "weights"}) :
       LET G == IF grouped THEN <<>> ELSE Groups(obj, seed, rep)
           rq == [groups |-> G, wts |-> IF weighted THEN (IF G = <<>> THEN <<>> ELSE Weights(G, seed)) ELSE <<>>,
                  norm |-> ~norm, tavg |-> tavg, how |-> IF how = "err" /\ (keep \/ "err" \in obj.stats) THEN "err" ELSE "ints",
                  field |-> IF keep THEN field ELSE field \cap obj.stats, inplace |-> inplace,
                  bad |-> CASE bad = "pair" /\ G # <<>> -> "pair" [] bad = "shape" /\ weighted /\ G # <<>> -> "shape"
                            [] bad = "field" /\ obj.stats # {} -> "field" [] bad = "weights" /\ G = <<>> -> "weights" [] OTHER -> "no"]
           \* without statistics at all the error field is not checked by the library: not part of the contract
           \* nor is a pair of zero weight with other times than the rest of its group
           Uneven == rq.wts # <<>> /\ ~rq.tavg /\ \E i \in DOMAIN G : \E j \in DOMAIN G[i] :
              WtOf(seed, i, j) = 0 /\ \E k \in DOMAIN G[i] : Len(TimesOf(obj, G[i][j])) # Len(TimesOf(obj, G[i][k]))
           usable == ~Uneven /\ (obj.stats # {} \/ (rq.field = {} /\ rq.how = "ints"))
       IN IF ~usable THEN obj' = obj /\ Rec("io", [x |-> 0], TRUE, Show(obj))
          ELSE IF ~Accepted(obj, rq) THEN obj' = obj /\ Rec("average", rq, FALSE, Show(obj))
          ELSE /\ obj' = IF inplace THEN AvgObj(obj, rq) ELSE obj
               /\ Rec("average", rq, TRUE, AvgObj(obj, rq))

(* averaging an averaged object again over nothing changes nothing *)
CanAgain == \A c \in obj.cells : c.integ # 0 \/ \A d \in 1..5 : c.W[d] = 0
Again == /\ obj # Nil /\ obj.kind = "avg"
         /\ LET o == [obj EXCEPT !.stats = {}]
            IN obj' = o /\ Rec("again", [x |-> 0], TRUE, o)

Init == obj = Nil /\ last = [op |-> "init"] /\ step = 0
Next == /\ step < MaxStep /\ step' = step + 1
        /\ IF obj = Nil THEN Make
           ELSE \E i \in {RandomElement(1..12)} :
             IF obj.kind = "raw" THEN
                CASE i = 1 /\ ~obj.folded -> Fold [] i = 2 -> SelectAny [] i = 3 -> Io [] i = 4 -> Make [] OTHER -> Average
             ELSE CASE i \in 1..2 /\ ~obj.folded -> Fold [] i \in 3..4 -> SelectAny [] i = 5 -> Io [] i \in 6..7 /\ CanAgain -> Again
                    [] OTHER -> Make
Spec == Init /\ [][Next]_vars
Shown == Emit => PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
