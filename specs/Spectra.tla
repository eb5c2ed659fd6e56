------------------------------ MODULE Spectra ------------------------------
(* Power-spectrum objects as sets of cells, and the operations that move    *)
(* cells between objects and files: selection, copying, combination,        *)
(* writing, (partial) reading and comparison.                               *)
(*                                                                          *)
(* A cell is <<window, baseline-pair, time-pair, polarization-pair, source>>*)
(* where source names the visibility data it was formed from: every number  *)
(* stored for a cell (data, weights, statistics ...) is a function of the   *)
(* cell alone, so "the values are unchanged" is "the cells are the same".   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Spws, Blps, Tps, Pols,   \* the universe of keys
          NReg, NFile,             \* objects in memory, files on disk
          Random,                  \* TRUE: every choice is drawn, one successor per state (simulation)
          Ops,                     \* sequence of operation names, drawn uniformly
          Styles,                  \* sets of optional content an object may carry
          MaxStep, Emit

VARIABLES reg, file, last, step
vars == <<reg, file, last, step>>

Nil == [nil |-> TRUE]
IsObj(o) == o # Nil

(* baselines 1:(1,2) 2:(2,3) 3:(3,4) 4:(1,3) 5:(2,4); -1 a baseline of no object *)
Bl1 == [b \in 0..7 |-> <<1, 1, 2, 4, 2, 5, 1, 3>>[b + 1]]
Bl2 == [b \in 0..7 |-> <<1, 2, 3, 5, 1, 4, 4, 3>>[b + 1]]
T1 == [t \in 0..6 |-> <<0, 1, 2, 3, 0, 1, 0>>[t + 1]]
T2 == [t \in 0..6 |-> <<0, 1, 2, 3, 1, 2, 2>>[t + 1]]
Avg(t) == T1[t] + T2[t]            \* twice the average time
Rank == [s \in 0..4 |-> <<0, 2, 3, 4, 1>>[s + 1]]  \* order of the windows by frequency range

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Bern(n) == IF Random THEN {RandomElement(1..n) = 1} ELSE BOOLEAN
Sub(S) == SUBSET S \ {{}}

SpwSet(o) == {c[1] : c \in o.cells}
Rows(o) == {<<c[2], c[3]>> : c \in o.cells}
PolSet(o) == {c[4] : c \in o.cells}
SortSpws(S) == CHOOSE q \in [1..Cardinality(S) -> S] :
                 \A i, j \in 1..Cardinality(S) : i < j => Rank[q[i]] < Rank[q[j]]

Feat(o) == [f \in DOMAIN o \ {"spws", "cells"} |-> o[f]]
Obj(spws, cells, feat) ==
  [f \in {"spws", "cells"} \cup DOMAIN feat |->
     IF f = "spws" THEN spws ELSE IF f = "cells" THEN cells ELSE feat[f]]

(* ------------------------------------------------------------ selection *)
NoCrit == [spws |-> {-1}, bls |-> {}, both |-> FALSE, blps |-> {}, times |-> {}, lsts |-> {}, pols |-> {}]
HasSpw(k) == k.spws # {-1}
RowOK(k, r) ==
  /\ (k.bls # {} \/ k.blps # {}) =>
        \/ k.bls # {} /\ IF k.both THEN Bl1[r[1]] \in k.bls /\ Bl2[r[1]] \in k.bls
                                   ELSE Bl1[r[1]] \in k.bls \/ Bl2[r[1]] \in k.bls
        \/ r[1] \in k.blps
  /\ k.times # {} => Avg(r[2]) \in k.times
  /\ k.lsts # {} => Avg(r[2]) \in k.lsts
KeepCells(o, k) == {c \in o.cells :
    /\ HasSpw(k) => c[1] \in k.spws
    /\ RowOK(k, <<c[2], c[3]>>)
    /\ k.pols # {} => c[4] \in k.pols}
SelOK(o, k) ==
  /\ HasSpw(k) => k.spws \subseteq SpwSet(o)
  /\ ~(k.times # {} /\ k.lsts # {})
  /\ KeepCells(o, k) # {}
Sel(o, k) == Obj(SelectSeq(o.spws, LAMBDA s : HasSpw(k) => s \in k.spws), KeepCells(o, k), Feat(o))

(* ---------------------------------------------------------- combination *)
Static(o) == <<o.static, o.win = "exact", o.beam, o.folded, o.dsq, o.cosmo>>
Differ(a, b) == {x \in {"spw", "row", "pol"} :
    CASE x = "spw" -> SpwSet(a) # SpwSet(b)
      [] x = "row" -> Rows(a) # Rows(b)
      [] x = "pol" -> PolSet(a) # PolSet(b)}
Disjoint(a, b, x) ==
    CASE x = "spw" -> SpwSet(a) \cap SpwSet(b) = {}
      [] x = "row" -> Rows(a) \cap Rows(b) = {}
      [] x = "pol" -> PolSet(a) \cap PolSet(b) = {}
Pairs(q) == {<<i, j>> \in (DOMAIN q) \X (DOMAIN q) : i < j}
CombOK(q) ==
  /\ \A p \in Pairs(q) : Static(q[p[1]]) = Static(q[p[2]]) /\ q[p[1]].rpar = q[p[2]].rpar
  /\ \E x \in {"spw", "row", "pol"} : \A p \in Pairs(q) :
        Differ(q[p[1]], q[p[2]]) = {x} /\ Disjoint(q[p[1]], q[p[2]], x)
All(q, f) == \A i \in DOMAIN q : q[i][f]
CombFeat(q) ==
  [Feat(q[1]) EXCEPT !.ord = FALSE, !.plain = All(q, "plain"),
                     !.cov = All(q, "cov") /\ \A i \in DOMAIN q : q[i].covm = q[1].covm,
                     !.covm = IF All(q, "cov") THEN q[1].covm ELSE 0,
                     !.win = IF \E i \in DOMAIN q : q[i].win = "no" THEN "no" ELSE q[1].win,
                     !.stats = {s \in q[1].stats : \A i \in DOMAIN q : s \in q[i].stats}]
Comb(q) ==
  Obj(SortSpws(UNION {SpwSet(q[i]) : i \in DOMAIN q}), UNION {q[i].cells : i \in DOMAIN q}, CombFeat(q))
Bad == [bad |-> TRUE]
Flat(q) == IF Len(q) = 1 THEN q[1] ELSE IF CombOK(q) THEN Comb(q) ELSE Bad
RECURSIVE Recur(_)
Recur(q) ==
  IF Len(q) <= 1 THEN q[1]
  ELSE LET m == Len(q) \div 2
           a == Recur(SubSeq(q, 1, m))
           b == Recur(SubSeq(q, m + 1, Len(q)))
       IN IF a = Bad \/ b = Bad THEN Bad ELSE Flat(<<a, b>>)
RECURSIVE Plus(_)
Plus(q) == IF Len(q) = 1 THEN q[1]
           ELSE LET a == Plus(SubSeq(q, 1, Len(q) - 1))
                IN IF a = Bad THEN Bad ELSE Flat(<<a, q[Len(q)]>>)
Combined(how, q) == CASE how = "flat" -> Flat(q) [] how = "files" -> Flat(q)
                      [] how = "recursive" -> Recur(q) [] how = "plus" -> Plus(q)

(* -------------------------------------------------------------- choices *)
Val(n) == <<"src", n>>      \* the value of a cell: formed from source n (specs/Chain.tla adds derived values)
Product(S, R, P, src) == {<<s, r[1], r[2], p, Val(src)>> : s \in S, r \in R, p \in P}
Perm(S) == {q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]}
AllBls == 1..5
Crits(o) ==
  IF Random THEN
    {[spws |-> IF RandomElement(1..3) = 1 THEN RandomElement(Sub(SpwSet(o) \cup (IF RandomElement(1..6) = 1 THEN Spws ELSE {}))) ELSE {-1},
      bls |-> IF RandomElement(1..3) = 1 THEN RandomElement(Sub(AllBls)) ELSE {},
      both |-> RandomElement(BOOLEAN),
      blps |-> IF RandomElement(1..3) = 1 THEN RandomElement(Sub({r[1] : r \in Rows(o)} \cup {RandomElement(Blps)})) ELSE {},
      times |-> IF RandomElement(1..3) = 1 THEN RandomElement(Sub({Avg(r[2]) : r \in Rows(o)})) ELSE {},
      lsts |-> IF RandomElement(1..6) = 1 THEN RandomElement(Sub({Avg(r[2]) : r \in Rows(o)})) ELSE {},
      pols |-> IF RandomElement(1..3) = 1 THEN RandomElement(Sub(PolSet(o) \cup {RandomElement(Pols)})) ELSE {}]}
  ELSE [spws : {{-1}} \cup Sub(Spws), bls : {{}, {1}, {1, 2}}, both : BOOLEAN, blps : {{}} \cup {{b} : b \in Blps},
        times : {{}} \cup {{Avg(t)} : t \in Tps}, lsts : {{}}, pols : {{}} \cup {{p} : p \in Pols}]

Live == {r \in 1..NReg : IsObj(reg[r])}
Full == {r \in Live : ~reg[r].meta}
OnDisk == {f \in 1..NFile : IsObj(file[f])}

Rec(op, args, ok, sets) == last' = [op |-> op, args |-> args, ok |-> ok, sets |-> sets]
Put(r, o) == /\ reg' = [reg EXCEPT ![r] = o] /\ UNCHANGED file
None == UNCHANGED <<reg, file>>

(* -------------------------------------------------------------- actions *)
Styled(f) == [cov |-> "cov" \in f, covm |-> IF "cov" \in f THEN 1 ELSE 0,
              win |-> IF "exact" \in f THEN "exact" ELSE IF "win" \in f THEN "plain" ELSE "no",
              beam |-> "beam" \in f, stats |-> f \cap {"err", "noise_1_of_2"}, rpar |-> "rpar" \in f,
              folded |-> FALSE, static |-> 0, meta |-> FALSE,
              \* dsq: units of Delta^2; cosmo: cosmology adopted; scal: cosmology of the normalization scalars;
              \* ord: the times of all pairs come in the same order; plain: no difference or average was taken
              dsq |-> 0, cosmo |-> 0, scal |-> 0, ord |-> TRUE, plain |-> TRUE]
Make ==
  \E r \in Pick(1..NReg), S \in Pick(Sub(Spws)), B \in Pick(Sub(Blps)), T \in Pick(Sub(Tps)), P \in Pick(Sub(Pols)),
     f \in Pick(Styles), src \in Pick(0..3) :
   \E q \in Pick(Perm(S)), drop \in Pick({{}} \cup {{x} : x \in B \X T}) :
    LET R == IF (B \X T) \ drop = {} THEN B \X T ELSE (B \X T) \ drop
        o == Obj(q, Product(S, R, P, src), Styled(f))
    IN /\ Put(r, o)
       /\ Rec("make", [reg |-> r], TRUE, <<[reg |-> r, obj |-> o]>>)

(* split one block of cells along one axis into k objects; then possibly spoil one of them *)
Spoil(spoil, pt, axis, x) ==
  CASE spoil = "hole" /\ axis # "row" /\ Cardinality(pt.R) > 1 -> [pt EXCEPT !.R = @ \ {x.r}]
    [] spoil = "overlap" /\ axis = "row" -> [pt EXCEPT !.R = @ \cup {x.r}]
    [] spoil = "overlap" /\ axis = "spw" -> [pt EXCEPT !.S = @ \cup {x.s}]
    [] spoil = "overlap" /\ axis = "pol" -> [pt EXCEPT !.P = @ \cup {x.p}]
    [] OTHER -> pt
Small(X, n) == {x \in Sub(X) : Cardinality(x) <= n}
Rotate(q, n) == [i \in DOMAIN q |-> q[((i + n) % Len(q)) + 1]]
Tile ==
  \E axis \in Pick({"spw", "row", "pol"}),
     S \in Pick(Small(Spws, 3)), B \in Pick(Small(Blps, 3)), T \in Pick(Small(Tps, 3)), P \in Pick(Small(Pols, 3)),
     f \in Pick(Styles), g \in Pick(Styles), st \in Pick(1..9), src0 \in Pick(0..3), n \in Pick(0..20),
     spoil \in Pick({"no", "no2", "no3", "no4", "hole", "overlap", "static", "style"}),
     folded \in Bern(8) :
   \E drop \in Pick({{}} \cup {{x} : x \in B \X T}) :
   \E R \in {IF (B \X T) \ drop = {} THEN B \X T ELSE (B \X T) \ drop} :
   \E X \in {SetToSeq(CASE axis = "spw" -> S [] axis = "row" -> R [] axis = "pol" -> P)} :
   \E k \in Pick(1..(IF Len(X) < NReg THEN Len(X) ELSE NReg)) :
   \E who \in Pick(1..k), x \in Pick([r : R, s : S, p : P]), sh \in Pick(0..6) :
     LET Y == [i \in 1..k |-> {X[j] : j \in {j \in DOMAIN X : ((IF j > k THEN sh * j + n ELSE j) % k) + 1 = i}}]
         pt(i) == [S |-> IF axis = "spw" THEN Y[i] ELSE S,
                   R |-> IF axis = "row" THEN Y[i] ELSE R,
                   P |-> IF axis = "pol" THEN Y[i] ELSE P]
         sp(i) == IF i = who THEN Spoil(spoil, pt(i), axis, x) ELSE pt(i)
         ft(i) == [Styled(IF spoil = "style" /\ i = who THEN g ELSE f)
                     EXCEPT !.static = IF spoil = "static" /\ i = who THEN st ELSE 0, !.folded = folded]
         ob(i) == Obj(Rotate(SortSpws(sp(i).S), (n + i) % 3), Product(sp(i).S, sp(i).R, sp(i).P, (src0 + i) % 4), ft(i))
     IN /\ reg' = [r \in 1..NReg |-> IF r <= k THEN ob(r) ELSE reg[r]]
        /\ UNCHANGED file
        /\ Rec("tile", [axis |-> axis, k |-> k, spoil |-> spoil], TRUE, [i \in 1..k |-> [reg |-> i, obj |-> ob(i)]])

Select ==
  /\ Live # {}
  /\ \E r \in Pick(Live), inplace \in Bern(3) :
     \E d \in (IF inplace THEN {r} ELSE Pick(1..NReg)), k \in Crits(reg[r]) :
       IF SelOK(reg[r], k)
       THEN /\ Put(d, Sel(reg[r], k))
            /\ Rec("select", [reg |-> r, to |-> d, inplace |-> inplace, crit |-> k], TRUE,
                   <<[reg |-> d, obj |-> Sel(reg[r], k)]>>)
       ELSE /\ None      \* a refused selection: only tried on a copy
            /\ Rec("select", [reg |-> r, to |-> 0, inplace |-> FALSE, crit |-> k], FALSE, <<>>)

Copy ==
  /\ Live # {}
  /\ \E r \in Pick(Live), d \in Pick(1..NReg) :
       /\ Put(d, reg[r])
       /\ Rec("copy", [reg |-> r, to |-> d], TRUE, <<[reg |-> d, obj |-> reg[r]]>>)

Write ==
  /\ Full # {}
  /\ \E r \in Pick(Full), f \in Pick(1..NFile), ow \in Bern(2) :
       LET ok == ow \/ ~IsObj(file[f])
       IN /\ file' = IF ok THEN [file EXCEPT ![f] = reg[r]] ELSE file
          /\ UNCHANGED reg
          /\ Rec("write", [reg |-> r, file |-> f, ow |-> ow], ok, <<>>)

Read ==
  /\ OnDisk # {}
  /\ \E f \in Pick(OnDisk), d \in Pick(1..NReg), meta \in Bern(4), part \in Bern(2) :
     \E k \in (IF part THEN Crits(file[f]) ELSE {NoCrit}) :
       LET ok == SelOK(file[f], k)
           o == [Sel(file[f], k) EXCEPT !.meta = meta]
       IN IF ok THEN /\ Put(d, o)
                     /\ Rec("read", [file |-> f, to |-> d, meta |-> meta, crit |-> k], TRUE, <<[reg |-> d, obj |-> o]>>)
          ELSE /\ None
               /\ Rec("read", [file |-> f, to |-> 0, meta |-> meta, crit |-> k], FALSE, <<>>)

CombineSome(q, how, d) ==
  LET objs == [i \in DOMAIN q |-> reg[q[i]]]
      res == Combined(how, objs)
  IN IF res = Bad
     THEN /\ None /\ Rec("combine", [regs |-> q, to |-> 0, how |-> how], FALSE, <<>>)
     ELSE /\ Put(d, res) /\ Rec("combine", [regs |-> q, to |-> d, how |-> how], TRUE, <<[reg |-> d, obj |-> res]>>)
CombineAny ==
  /\ Cardinality(Full) >= 2
  /\ \E n \in Pick(2..(IF Cardinality(Full) < 4 THEN Cardinality(Full) ELSE 4)) :
     \E C \in Pick({c \in SUBSET Full : Cardinality(c) = n}), how \in Pick({"flat", "recursive", "plus", "files"}) :
     \E q \in Pick(Perm(C)), d \in Pick(1..NReg) : CombineSome(q, how, d)
(* the registers most recently filled by Tile *)
CombineTile ==
  /\ last.op = "tile"
  /\ \E q \in Pick(Perm(1..last.args.k)), d \in Pick(1..NReg), how \in Pick({"flat", "recursive", "plus", "files"}) :
       CombineSome(q, how, d)

Fold ==
  /\ Full # {}
  /\ \E r \in Pick(Full) :
       IF reg[r].folded
       THEN /\ None /\ Rec("fold", [reg |-> r], FALSE, <<>>)
       ELSE LET o == [reg[r] EXCEPT !.folded = TRUE]
            IN /\ Put(r, o) /\ Rec("fold", [reg |-> r], TRUE, <<[reg |-> r, obj |-> o]>>)

Eq ==
  /\ Live # {}
  /\ \E a \in Pick(Live), b \in Pick(Live) :
       /\ None
       /\ Rec("eq", [a |-> a, b |-> b, same |-> [reg[a] EXCEPT !.ord = TRUE, !.plain = TRUE] = [reg[b] EXCEPT !.ord = TRUE, !.plain = TRUE]], TRUE, <<>>)

Enabled(op) == CASE op \in {"make", "tile"} -> TRUE
                 [] op \in {"select", "copy", "eq"} -> Live # {}
                 [] op \in {"write", "fold"} -> Full # {}
                 [] op = "read" -> OnDisk # {}
                 [] op = "combine" -> Cardinality(Full) >= 2
                 [] op = "combinetile" -> last.op = "tile"
Do(op) == CASE op = "make" -> Make [] op = "tile" -> Tile [] op = "select" -> Select [] op = "copy" -> Copy
            [] op = "write" -> Write [] op = "read" -> Read [] op = "combine" -> CombineAny
            [] op = "combinetile" -> CombineTile [] op = "eq" -> Eq [] op = "fold" -> Fold

Init == /\ reg = [r \in 1..NReg |-> Nil] /\ file = [f \in 1..NFile |-> Nil]
        /\ last = [op |-> "init"] /\ step = 0
Next == /\ step < MaxStep
        /\ step' = step + 1
        /\ IF Random
           THEN \E i \in {RandomElement(1..Len(Ops))} :
                  IF last.op = "tile" /\ "combinetile" \in ToSet(Ops) THEN CombineTile
                  ELSE IF Enabled(Ops[i]) THEN Do(Ops[i]) ELSE Make
           ELSE \E i \in DOMAIN Ops : Do(Ops[i])
Spec == Init /\ [][Next]_vars

(* --------------------------------------------------------- what is shown *)
Objs == {reg[r] : r \in Live} \cup {file[f] : f \in OnDisk}
(* every object is a full block with one source per cell, in consistent window order *)
Rectangular == \A o \in Objs :
   /\ o.cells # {}
   /\ \A s \in SpwSet(o), r \in Rows(o), p \in PolSet(o) :
        Cardinality({c \in o.cells : <<c[1], <<c[2], c[3]>>, c[4]>> = <<s, r, p>>}) = 1
   /\ Range(o.spws) = SpwSet(o) /\ Len(o.spws) = Cardinality(SpwSet(o))
(* cells are only moved, never invented *)
Shown == Emit => PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
