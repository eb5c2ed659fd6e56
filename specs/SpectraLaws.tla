----------------------------- MODULE SpectraLaws -----------------------------
(* Laws of the algebra of specs/Spectra.tla, decided over every object of a *)
(* small universe: tiling and combination, selection, folding.              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANT Universe
VARIABLES o, parts, k1, k2, phase
vars == <<o, parts, k1, k2, phase>>

S == INSTANCE Spectra WITH Spws <- {0, 1, 4}, Blps <- {0, 1}, Tps <- {0, 4}, Pols <- {0, 1}, NReg <- 3, NFile <- 1,
        Random <- FALSE, Ops <- <<>>, Styles <- {{}}, MaxStep <- 0, Emit <- FALSE,
        reg <- <<>>, file <- <<>>, last <- <<>>, step <- 0

F == S!Styled({"win"})
RowSets == IF Universe = 1 THEN {{<<0, 0>>}, {<<0, 0>>, <<1, 0>>}, {<<0, 0>>, <<0, 4>>, <<1, 0>>}}
           ELSE SUBSET ({0, 1} \X {0, 4}) \ {{}}
SpwSets == IF Universe = 1 THEN {{0}, {0, 1}, {0, 1, 4}} ELSE SUBSET {0, 1, 4} \ {{}}
PolSets == {{0}, {0, 1}}
Blocks == {S!Obj(S!SortSpws(X), S!Product(X, R, P, 0), F) : X \in SpwSets, R \in RowSets, P \in PolSets}

(* parts of o along one axis, for every way of colouring the axis with 2 or 3 colours *)
Axis(ob, x) == CASE x = "spw" -> S!SpwSet(ob) [] x = "row" -> S!Rows(ob) [] x = "pol" -> S!PolSet(ob)
Of(c, x) == CASE x = "spw" -> c[1] [] x = "row" -> <<c[2], c[3]>> [] x = "pol" -> c[4]
Part(ob, x, A) ==
  LET cs == {c \in ob.cells : Of(c, x) \in A} IN S!Obj(S!SortSpws({c[1] : c \in cs}), cs, F)
Splits(ob, x, n) ==
  {q \in {[i \in 1..n |-> {a \in Axis(ob, x) : f[a] = i}] : f \in [Axis(ob, x) -> 1..n]} : \A i \in 1..n : q[i] # {}}

Crit == {[S!NoCrit EXCEPT !.spws = s, !.bls = b, !.both = w, !.blps = p, !.times = t, !.pols = q] :
           s \in {{-1}, {0}, {0, 1}}, b \in {{}, {1}, {2}}, w \in BOOLEAN, p \in {{}, {1}}, t \in {{}, {0}}, q \in {{}, {1}}}
Crit1 == IF Universe = 1 THEN {[S!NoCrit EXCEPT !.spws = s, !.bls = b, !.times = t, !.pols = q] :
           s \in {{-1}, {0}}, b \in {{}, {1}}, t \in {{}, {0}}, q \in {{}, {1}}} ELSE Crit

Init == /\ o \in Blocks /\ parts = <<>> /\ k1 = S!NoCrit /\ k2 = S!NoCrit /\ phase = "start"
Split == /\ phase = "start"
         /\ \E x \in {"spw", "row", "pol"}, n \in 2..3 :
              \E q \in Splits(o, x, n) : parts' = [i \in 1..n |-> Part(o, x, q[i])]
         /\ phase' = "split" /\ UNCHANGED <<o, k1, k2>>
Choose == /\ phase = "start"
          /\ \E a \in Crit, b \in Crit1 : k1' = a /\ k2' = b
          /\ phase' = "select" /\ UNCHANGED <<o, parts>>
Next == Split \/ Choose
Spec == Init /\ [][Next]_vars

Whole(ob) == [ob EXCEPT !.ord = FALSE]   \* up to the order of the rows
(* parts put together again, in whatever order and by whichever route, are the whole *)
TilingIsUnion == phase = "split" =>
   /\ S!Flat(parts) = Whole(o)
   /\ S!Recur(parts) = Whole(o)
   /\ S!Plus(parts) = Whole(o)
(* a proper subset of the parts is not the whole; a part given twice is refused *)
NoDuplicates == phase = "split" =>
   /\ S!Flat(<<parts[1], parts[1]>>) = S!Bad
   /\ S!Flat(parts \o <<parts[1]>>) = S!Bad
   /\ Len(parts) = 3 => S!Flat(<<parts[1], parts[2]>>) # Whole(o)
(* a part from which a cell line is missing along another axis leaves a hole and is refused *)
HolesRefused == phase = "split" =>
   \A x \in {"spw", "row", "pol"} : \A a \in Axis(parts[1], x) :
      LET h == Part(parts[1], x, Axis(parts[1], x) \ {a})
          y == CHOOSE y \in {"spw", "row", "pol"} : Axis(parts[1], y) \cap Axis(parts[2], y) = {}
      IN (x # y /\ Cardinality(Axis(parts[1], x)) > 1) => S!Flat([parts EXCEPT ![1] = h]) = S!Bad
(* selecting twice is selecting by both; the order does not matter *)
SelectionComposes == phase = "select" =>
   LET a == S!KeepCells(o, k1)
       b == S!KeepCells(o, k2)
   IN /\ a \cap b # {} /\ a # {} => S!KeepCells(S!Sel(o, k1), k2) = a \cap b
      /\ a \cap b # {} => S!KeepCells(S!Sel(o, k2), k1) = S!KeepCells(S!Sel(o, k1), k2)
      /\ S!KeepCells(o, S!NoCrit) = o.cells
      /\ a # {} => S!KeepCells(S!Sel(o, k1), k1) = a
=============================================================================
