------------------------------ MODULE Merge ------------------------------
(* Merging the extensions of the spectra inside a container (combine_psc_spectra).

   A name is a sequence of tokens joined by "_": <<"d1","x","d2","a">> is d1_x_d2_a.  Under the convention
   "dset1_x_dset2_ext" the bare name of a spectrum is its first three tokens; without a data-set pair (no
   separator given) it is its first token.  The content of an entry is the set of cells (rows) it holds.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Groups, Names,     \* Names: set of token sequences that may be stored initially
          Alien,             \* cells whose fixed metadata differ from the others: cannot be combined with them
          Contents,          \* possible initial contents (sets of cells), {} = absent
          Emit

VARIABLES store, act, steps

Modes == {"x", "none"}

Bare(n, m) == IF m = "none" THEN SubSeq(n, 1, 1)
              ELSE IF Len(n) >= 3 /\ n[2] = "x" THEN SubSeq(n, 1, 3) ELSE <<>>
AllNames == Names \cup ({Bare(n, m) : n \in Names, m \in Modes} \ {<<>>})

Members(s, b, m) == {n \in AllNames : s[n] # {} /\ Bare(n, m) = b}
Pairwise(ms, s) == \A a, c \in ms : a # c => s[a] \cap s[c] = {}
Union(ms, s) == UNION {s[a] : a \in ms}
Compatible(cells) == cells \subseteq Alien \/ cells \cap Alien = {}
Mergeable(ms, s) == Pairwise(ms, s) /\ Compatible(Union(ms, s))

(* merge one bare name within one group *)
MergeOne(s, b, m, ow) ==
  LET ms == Members(s, b, m)
  IN IF ms = {} \/ (s[b] # {} /\ ~ow) \/ ~Mergeable(ms, s) THEN s
     ELSE [n \in AllNames |-> IF n = b THEN Union(ms, s) ELSE IF n \in ms THEN {} ELSE s[n]]

Bares(m) == {Bare(n, m) : n \in AllNames} \ {<<>>}

RECURSIVE MergeAll(_, _, _, _)
MergeAll(s, bs, m, ow) == IF bs = {} THEN s
  ELSE LET b == CHOOSE x \in bs : TRUE IN MergeAll(MergeOne(s, b, m, ow), bs \ {b}, m, ow)

Init == /\ store \in [Groups -> [AllNames -> Contents \cup {{}}]]
        /\ \A g \in Groups : \A n \in AllNames \ Names : store[g][n] = {}
        /\ act = [op |-> "init"] /\ steps = 0

Listed == {g \in Groups : \E n \in AllNames : store[g][n] # {}}

Merge(gs, m, ow) ==
  LET todo == (IF gs = {} THEN Groups ELSE gs) \cap Listed
      ok == todo # {}
  IN /\ store' = IF ok THEN [g \in Groups |-> IF g \in todo THEN MergeAll(store[g], Bares(m), m, ow) ELSE store[g]]
                 ELSE store
     /\ act' = [op |-> "merge", gs |-> gs, m |-> m, ow |-> ow, ok |-> ok]
     /\ steps' = steps + 1

Next == steps < 2 /\ \E gs \in SUBSET Groups, m \in Modes, ow \in BOOLEAN : Merge(gs, m, ow)
Spec == Init /\ [][Next]_<<store, act, steps>>

(* ------------------------------------------------------------------ properties of the design *)
Cells(s) == UNION {s[n] : n \in AllNames}
(* nothing is ever lost and nothing appears *)
Conserved == [][\A g \in Groups : Cells(store'[g]) = Cells(store[g])]_<<store, act, steps>>
(* a spectrum changes only if it belongs to the name it is folded into *)
Bystanders == [][\A g \in Groups, n \in AllNames : store'[g][n] # store[g][n] =>
                   \/ n = Bare(n, act'.m)
                   \/ store'[g][n] = {} /\ store[g][n] \subseteq store'[g][Bare(n, act'.m)]]_<<store, act, steps>>
(* merging twice is merging once, when no plain merge was refused *)
Idempotent == [][\A g \in (IF act'.gs = {} THEN Groups ELSE act'.gs) : LET t == store'[g] IN
                   MergeAll(t, Bares(act'.m), act'.m, act'.ow) = t]_<<store, act, steps>>

(* ------------------------------------------------------------------ emission *)
Sto(s) == {[g |-> g, n |-> n, c |-> s[g][n]] : g \in Groups, n \in AllNames}
Shown(s) == {r \in Sto(s) : r.c # {}}
EmitT == Emit => PrintT("@@" \o ToJson([f |-> Shown(store), a |-> act', t |-> Shown(store')]))
view == <<store, steps>>
=============================================================================
