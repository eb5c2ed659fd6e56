------------------------------- MODULE Batch -------------------------------
(* Merging many small container files into one (fast_merge_baselines).       *)
(*                                                                           *)
(* disk maps paths to container files: entries (group and name -> spectrum)  *)
(* and header attributes.  A spectrum is a set of cells <<window, pair, time *)
(* pair, polarization pair, origin>> and features.  side maps outputs and    *)
(* attribute names to the collected attributes.  A merge takes the files     *)
(* that match a pattern, combines what they have under each name, batch by   *)
(* batch, and stores the results in the output file; the output of a merge   *)
(* is a file like the others, so that it can be merged again.                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, Randomization

CONSTANTS Random, MaxStep, Emit

VARIABLES disk, side, axis, count, last, step
vars == <<disk, side, axis, count, last, step>>

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Bern(n) == IF Random THEN {RandomElement(1..n) = 1} ELSE BOOLEAN

(* paths in their sorted order *)
Paths == <<"aux.01.h5", "blp.01.h5", "blp.02.h5", "blp.10.h5", "blp.11.h5", "blp.2.h5", "blp.x.h5",
           "out.v1.pspec.h5", "sum.pspec.h5">>
Path == 1..9
Inputs == 1..7
Outs == {8, 9}
Match == [aux |-> {1}, all |-> Path, blp |-> 2..7, zero |-> {2, 3}, one |-> {4, 5}, first |-> {1, 2}, set |-> {3, 6, 7},
          digits |-> 2..5, outs |-> Outs, none |-> {}]
Groups == {"g", "h"}
Names == {"n", "n2", "time_and_interleave_averaged"}
Keys == Groups \X Names
Extras == {"one", "two"}
Rank == [s \in 0..4 |-> <<0, 2, 3, 4, 1>>[s + 1]]

Absent == [there |-> FALSE, ents |-> <<>>, attrs |-> {}, no |-> 0]
There(p) == disk[p].there
Has(p, k) == There(p) /\ k \in DOMAIN disk[p].ents

(* --------------------------------------------------------------- combining *)
Part(o, x) == CASE x = "spw" -> {c[1] : c \in o.cells} [] x = "row" -> {<<c[2], c[3]>> : c \in o.cells}
                [] x = "pol" -> {c[4] : c \in o.cells}
Bad == [bad |-> TRUE]
Pairs(q) == {<<i, j>> \in (DOMAIN q) \X (DOMAIN q) : i < j}
CombOK(q) ==
  \E x \in {"spw", "row", "pol"} : \A p \in Pairs(q) :
     LET a == q[p[1]] b == q[p[2]] IN
       /\ a.static = b.static /\ a.folded = b.folded /\ a.beam = b.beam /\ (a.win = "exact" <=> b.win = "exact")
       /\ Part(a, x) \cap Part(b, x) = {}
       /\ \A y \in {"spw", "row", "pol"} \ {x} : Part(a, y) = Part(b, y)
All(q, f) == \A i \in DOMAIN q : q[i][f]
Comb(q) ==
  IF Len(q) = 1 THEN q[1]
  ELSE IF Bad \in Range(q) \/ ~CombOK(q) THEN Bad
  ELSE [q[1] EXCEPT !.cells = UNION {q[i].cells : i \in DOMAIN q},
                    !.cov = All(q, "cov"),
                    !.win = IF \E i \in DOMAIN q : q[i].win = "no" THEN "no" ELSE q[1].win,
                    !.stats = {s \in q[1].stats : \A i \in DOMAIN q : s \in q[i].stats}]
(* one batch after the other *)
RECURSIVE Batched(_, _, _)
Batched(q, n, done) ==
  IF q = <<>> THEN done[1]
  ELSE LET k == IF n < Len(q) THEN n ELSE Len(q)
           b == Comb(SubSeq(q, 1, k))
       IN Batched(SubSeq(q, k + 1, Len(q)), n, <<Comb(done \o <<b>>)>>)

(* ------------------------------------------------------------------ merging *)
Files(m) == SelectSeq([i \in Path |-> i], LAMBDA p : There(p) /\ p \in Match[m.pat])
Parts(m, n) == [i \in DOMAIN Files(m) |-> disk[Files(m)[i]].ents[<<m.group, n>>]]
Complete(m) == /\ Files(m) # <<>>
               /\ \A i \in DOMAIN Files(m) : LET p == Files(m)[i] IN
                    /\ \A n \in m.names : Has(p, <<m.group, n>>)
                    /\ m.extras \subseteq disk[p].attrs
Merged(m, n) == Batched(Parts(m, n), IF m.size = 0 THEN Len(Files(m)) ELSE m.size, <<>>)
Direct(m, n) == Comb(Parts(m, n))
OK(m) == Complete(m) /\ \A n \in m.names : Merged(m, n) # Bad
(* the pair of a file: that of its only baseline-pair *)
PairsOf(p, m) == UNION {{c[2] : c \in disk[p].ents[<<m.group, n>>].cells} : n \in m.names}
Clear(m) == m.extras = {} \/ ~Complete(m) \/ \A i \in DOMAIN Files(m) : Cardinality(PairsOf(Files(m)[i], m)) = 1
Collected(m) == {<<b, LET i == Max({j \in DOMAIN Files(m) : PairsOf(Files(m)[j], m) = {b}}) IN disk[Files(m)[i]].no>> :
                 b \in UNION {PairsOf(Files(m)[i], m) : i \in DOMAIN Files(m)}}

Entries(f) == {<<k[1], k[2], f.ents[k]>> : k \in DOMAIN f.ents}
Show(d) == {[path |-> Paths[p], ents |-> Entries(d[p]), attrs |-> d[p].attrs, no |-> d[p].no] : p \in {q \in Path : d[q].there}}

Rec(op, args, ok, d, s) ==
  /\ disk' = d /\ side' = s
  /\ last' = [op |-> op, args |-> args, ok |-> ok, disk |-> Show(d), side |-> s]
  /\ step' = step + 1

Merge(m) ==
  LET ok == OK(m)
      out == disk[m.out]
      ents == IF out.there THEN out.ents ELSE <<>>
      new == [k \in DOMAIN ents \cup {<<m.group, n>> : n \in m.names} |->
                IF k[1] = m.group /\ k[2] \in m.names THEN Merged(m, k[2]) ELSE ents[k]]
      s == {x \in side : ~(x[1] = Paths[m.out] /\ x[2] \in m.extras)} \cup {<<Paths[m.out], e, Collected(m)>> : e \in m.extras}
      args == [m EXCEPT !.out = Paths[m.out]]
  IN /\ UNCHANGED <<axis, count>>
     /\ IF ok THEN Rec("merge", args, TRUE, [disk EXCEPT ![m.out] = [there |-> TRUE, ents |-> new, attrs |-> out.attrs, no |-> out.no]], s)
        ELSE Rec("merge", args, FALSE, disk, side)

MergeAny ==
  \E pat \in Pick({p \in DOMAIN Match : IF Random THEN TRUE ELSE p \in {"blp", "all", "zero"}}), out \in Pick(Outs), size \in Pick({0, 1, 2, 3, 4, 6}) :
  \E pat2 \in {IF pat \in {"aux", "outs", "none", "first", "all"} /\ Random THEN CHOOSE x \in Pick({pat, "blp", "digits"}) : TRUE ELSE pat} :
  \E n1 \in Pick(Names), two \in Bern(3), g \in Pick({"g"} \cup (IF Random THEN {CHOOSE x \in Pick({"g", "g", "h"}) : TRUE} ELSE {})) :
  \E n2 \in Pick(Names \ {n1}), ex \in Bern(3) :
  \E e \in Pick({{"one"}, {"two"}, {"one", "two"}}) :
  \E m \in {[pat |-> pat2, group |-> g, names |-> IF two THEN {n1, n2} ELSE {n1}, out |-> out, size |-> size,
             extras |-> IF ex THEN e ELSE {}]} :
     Merge(IF Clear(m) THEN m ELSE [m EXCEPT !.extras = {}])

(* --------------------------------------------------------------- the files *)
(* a file of one baseline-pair: which one and when, by arithmetic on its number *)
Times(h) == <<{0, 1, 2}, {0}, {1, 4}, {2, 3, 5}, {0, 6}, {0, 1, 2, 3}>>[(h % 6) + 1]
Put(p, b, h, odd, thin) ==
  LET piece == IF odd = 0 THEN 0 ELSE odd
      spws == IF axis.ax = "spw" THEN {axis.spws[((p + h) % Len(axis.spws)) + 1]} ELSE Range(axis.spws)
      pols == IF axis.ax = "pol" THEN {<<0, 1, 2, 3>>[((p + h) % 4) + 1]} ELSE axis.pols
      pair == IF axis.ax = "row" THEN b ELSE axis.pair
      when(i) == IF axis.ax = "row" THEN Times(h + i) ELSE Times(axis.pair)
      cells(i) == {<<s, pair, t, q, count + i>> : s \in spws, t \in when(i), q \in pols}
      feat(i) == [static |-> IF odd = 1 THEN 1 + (h % 11) ELSE axis.static, folded |-> axis.folded, beam |-> axis.beam \/ axis.static = 10,
                  win |-> IF thin /\ axis.win = "yes" THEN "no" ELSE axis.win,
                  cov |-> axis.cov /\ ~thin, stats |-> IF thin THEN axis.stats \ {"err"} ELSE axis.stats]
      obj(i) == [cells |-> cells(i)] @@ feat(i)
      keys == {k \in Keys : (h + Len(k[2])) % 23 # 0 /\ (k[1] = "g" \/ h % 3 = 0)}
      no == [k \in Keys |-> CASE k[2] = "n" -> 0 [] k[2] = "n2" -> 1 [] OTHER -> 2]
      f == [there |-> TRUE, ents |-> [k \in keys |-> obj(no[k])], attrs |-> IF h % 13 = 0 THEN {"one"} ELSE Extras, no |-> count + 1]
  IN /\ keys # {}
     /\ count' = count + 3 /\ UNCHANGED axis
     /\ Rec("put", [path |-> Paths[p]], TRUE, [disk EXCEPT ![p] = f], side)

PutAny ==
  \E p \in Pick(IF \E q \in Inputs : ~There(q) THEN {q \in Inputs : ~There(q)} ELSE Inputs), h \in Pick(0..41),
     odd \in Bern(20), thin \in Bern(5), clash \in Bern(16) :
  \E b \in Pick(0..7) : Put(p, IF Random /\ ~clash THEN p % 8 ELSE b, h, IF odd THEN 1 ELSE 0, thin)

Drop == \E p \in Pick({q \in Path : There(q)}) :
  /\ UNCHANGED <<axis, count>> /\ Rec("drop", [path |-> Paths[p]], TRUE, [disk EXCEPT ![p] = Absent], side)

(* something else in an output file: a spectrum under a name that may be merged into, too *)
Beside == \E p \in Pick(Outs), k \in Pick(Keys), h \in Pick(0..41) :
  LET old == IF There(p) THEN disk[p].ents ELSE <<>>
      o == [cells |-> {<<s, 7, t, q, count>> : s \in {0}, t \in Times(h), q \in {0, 1}}, static |-> h % 10, folded |-> h % 2 = 0, beam |-> FALSE,
            win |-> "no", cov |-> FALSE, stats |-> {"err"}]
  IN /\ count' = count + 1 /\ UNCHANGED axis
     /\ Rec("beside", [path |-> Paths[p]], TRUE,
            [disk EXCEPT ![p] = [there |-> TRUE, ents |-> [x \in DOMAIN old \cup {k} |-> IF x = k THEN o ELSE old[x]], attrs |-> {}, no |-> 0]], side)

Axes ==
  {[ax |-> ax, spws |-> s, pols |-> p, pair |-> b, static |-> st, folded |-> f, beam |-> bm, win |-> w, cov |-> c, stats |-> t] :
     ax \in Pick({"row", "row", "row", "spw", "pol"}), s \in Pick({<<0>>, <<4>>, <<0, 1>>, <<4, 2>>, <<0, 1, 2>>}), p \in Pick({{0}, {0, 1}, {2, 3}}),
     b \in Pick(0..7), st \in Pick({0, 2, 7, 11}), f \in Bern(4), bm \in Bern(3), w \in Pick({"no", "yes", "exact"}), c \in Bern(2),
     t \in Pick({{}, {"err"}, {"err", "noise_1_of_2"}})}

Init == /\ disk = [p \in Path |-> Absent] /\ side = {} /\ count = 0 /\ step = 0
        /\ \E a \in Axes : \E ax \in Pick({1, 2, 3, 4}) : axis = [a EXCEPT !.ax = IF ax < 4 THEN "row" ELSE a.ax]
        /\ last = [op |-> "init", args |-> <<>>, ok |-> TRUE, disk |-> {}, side |-> {}]

Next ==
  /\ step < MaxStep
  /\ IF ~Random THEN PutAny \/ MergeAny \/ Drop \/ Beside
     ELSE \E r \in {RandomElement(1..20)} :
            CASE Cardinality({p \in Inputs : There(p)}) < 3 \/ step < 4 -> PutAny
              [] r <= 5 -> PutAny
              [] r = 6 -> Drop
              [] r = 7 -> Beside
              [] OTHER -> MergeAny
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------- properties of the design *)
(* merging in batches is merging at once, for every batch size *)
BatchFree ==
  \A pat \in {"blp", "digits", "zero"}, k \in Keys :
    LET fs == SelectSeq([i \in Path |-> i], LAMBDA p : Has(p, k) /\ p \in Match[pat])
        q == [i \in DOMAIN fs |-> disk[fs[i]].ents[k]]
    IN q # <<>> => \A n \in 1..6 : Batched(q, n, <<>>) = Comb(q)
(* nor does the order of the files matter *)
OrderFree ==
  \A k \in Keys :
    LET fs == SelectSeq([i \in Path |-> i], LAMBDA p : Has(p, k) /\ p \in Match["digits"])
        q == [i \in DOMAIN fs |-> disk[fs[i]].ents[k]]
    IN q # <<>> => Comb(Reverse(q)) = Comb(q)
(* a merge changes only what it stores, and a refused one nothing *)
Confined == [][last'.op = "merge" =>
    /\ ~last'.ok => disk' = disk /\ side' = side
    /\ \A p \in Path : Paths[p] # last'.args.out => disk'[p] = disk[p]
    /\ \A p \in Path : There(p) => \A k \in DOMAIN disk[p].ents :
         disk'[p].ents[k] = disk[p].ents[k] \/ (Paths[p] = last'.args.out /\ k[1] = last'.args.group /\ k[2] \in last'.args.names)]_vars
(* every cell of the parts is in the result, once, and nothing else *)
Exact == [][last'.op = "merge" /\ last'.ok => \A p \in Outs : Paths[p] = last'.args.out =>
    \A n \in last'.args.names : LET o == disk'[p].ents[<<last'.args.group, n>>] IN
      /\ \A c, d \in o.cells : SubSeq(c, 1, 4) = SubSeq(d, 1, 4) => c = d
      /\ o.cells = UNION {disk[q].ents[<<last'.args.group, n>>].cells : q \in {r \in Match[last'.args.pat] : There(r)}}]_vars

Shown == Emit => PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
