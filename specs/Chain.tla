------------------------------- MODULE Chain -------------------------------
(* Any sequence of the library's operations on power-spectrum objects.       *)
(*                                                                           *)
(* Extends Spectra (make, tile, select, copy, write, read, combine, fold,    *)
(* compare) with the operations that change values: difference, restriction  *)
(* to common samples, unit conversion, change of cosmology, bias correction, *)
(* approximate covariance and averaging.  The value of a cell is the term    *)
(* that says how it was formed:                                              *)
(*   <<"src", n>>                  formed from source n                      *)
(*   <<"bias", kt, kd, v>>         data 2^(kt+kd), errors 2^kt, cov 4^kt     *)
(*   <<"dsq", c, v>>               times k^3 / 2 pi^2 in cosmology c         *)
(*   <<"cosmo", c0, c, v>>         data renormalized from scalar c0 to c     *)
(*   <<"acov", f, v>>              covariance formed from the noise error    *)
(*   <<"sub", f, v, t2, v2, mates>> v - v2 (f: of folded spectra; mates: the  *)
(*                                 same for all times of the pair)           *)
(*   <<"avg", f, <<<<b, t, v>> ..>>>>  average over pairs                    *)
EXTENDS Spectra, SequencesExt

CONSTANT COps
cvars == vars

Avgs(ts) == {Avg(t) : t \in ts}
Injective(ts) == Cardinality(Avgs(ts)) = Cardinality(ts)
TimesIn(o) == {c[3] : c \in o.cells}
PairsIn(o) == {c[2] : c \in o.cells}
MapVal(o, F(_)) == [o EXCEPT !.cells = {<<c[1], c[2], c[3], c[4], F(c)>> : c \in @}]

(* -------------------------------------------------- single-object changes *)
Plainish == {r \in Full : reg[r].static # 11}
DeltaSq(o) == [MapVal(o, LAMBDA c : <<"dsq", o.cosmo, c[5]>>) EXCEPT !.dsq = 1]
ToDeltaSq ==
  /\ \E r \in Pick({r \in Plainish : reg[r].dsq = 0}), inplace \in Bern(2), d \in Pick(1..NReg) :
       IF reg[r].cosmo = 0
       THEN /\ None /\ Rec("dsq", [reg |-> r, to |-> 0, inplace |-> FALSE], FALSE, <<>>)
       ELSE LET e == IF inplace THEN r ELSE d
            IN /\ Put(e, DeltaSq(reg[r]))
               /\ Rec("dsq", [reg |-> r, to |-> e, inplace |-> inplace], TRUE, <<[reg |-> e, obj |-> DeltaSq(reg[r])]>>)

Rescalable == {r \in Plainish : reg[r].static \notin {3, 5, 10}}  \* taper and beam as assumed by the expected scalars
Cosmology ==
  /\ \E r \in Pick(Rescalable), id \in Pick({1, 2}), ow \in Bern(2) :
       LET o == reg[r]
           can == o.beam /\ (o.cosmo = 0 \/ ow)
           n == IF ~can THEN o
                ELSE [MapVal(o, LAMBDA c : <<"cosmo", o.scal, id, c[5]>>) EXCEPT !.cosmo = id, !.scal = id]
       IN /\ Put(r, n)
          /\ Rec("cosmo", [reg |-> r, id |-> id, ow |-> ow], TRUE, <<[reg |-> r, obj |-> n]>>)

Bias ==
  /\ Full # {}
  /\ \E r \in Pick(Full), kt \in Pick({[s \in 0..4 |-> 0], [s \in 0..4 |-> ((s * 3) % 5) - 2]}),
        kd \in Pick({[s \in 0..4 |-> 0], [s \in 0..4 |-> (s % 3) - 1]}), inplace \in Bern(2), d \in Pick(1..NReg) :
       LET o == MapVal(reg[r], LAMBDA c : <<"bias", kt[c[1]], kd[c[1]], c[5]>>)
           e == IF inplace THEN r ELSE d
       IN /\ Put(e, o)
          /\ Rec("bias", [reg |-> r, to |-> e, kt |-> [i \in DOMAIN o.spws |-> kt[o.spws[i]]],
                          kd |-> [i \in DOMAIN o.spws |-> kd[o.spws[i]]], inplace |-> inplace], TRUE, <<[reg |-> e, obj |-> o]>>)

ApproxCov ==
  /\ \E r \in Pick({r \in Full : 1 \notin ToSet(reg[r].spws)}), inplace \in Bern(2), d \in Pick(1..NReg) :
       IF "noise_1_of_2" \notin reg[r].stats
       THEN /\ None /\ Rec("acov", [reg |-> r, to |-> 0, inplace |-> FALSE], FALSE, <<>>)
       ELSE LET o == [MapVal(reg[r], LAMBDA c : <<"acov", reg[r].folded, c[5]>>) EXCEPT !.cov = TRUE, !.covm = 1]
                e == IF inplace THEN r ELSE d
            IN /\ Put(e, o) /\ Rec("acov", [reg |-> r, to |-> e, inplace |-> inplace], TRUE, <<[reg |-> e, obj |-> o]>>)

(* ---------------------------------------------------------------- average *)
TimesOfPair(o, b) == {c[3] : c \in {c \in o.cells : c[2] = b}}
ValAt(o, s, b, t, p) == (CHOOSE c \in o.cells : c[1] = s /\ c[2] = b /\ c[3] = t /\ c[4] = p)[5]
Averaged(o, G) ==  \* G: sequence of groups covering the pairs
  LET vals(i, s, t, p) == [j \in DOMAIN G[i] |-> <<G[i][j], t, ValAt(o, s, G[i][j], t, p)>>]
      rows == UNION {{<<i, t>> : t \in TimesOfPair(o, G[i][1])} : i \in DOMAIN G}
  IN [o EXCEPT !.stats = {}, !.plain = FALSE,
        !.cells = {<<s, G[x[1]][1], x[2], p, <<"avg", o.folded, vals(x[1], s, x[2], p)>>>> : s \in SpwSet(o), x \in rows, p \in PolSet(o)}]
GroupAvg ==
  /\ \E r \in Pick({r \in Full : reg[r].ord /\ reg[r].plain /\ ~reg[r].rpar}), inplace \in Bern(2), d \in Pick(1..NReg) :
     \E b \in Pick(PairsIn(reg[r])) :
     \E C \in Pick({X \in SUBSET {x \in PairsIn(reg[r]) : TimesOfPair(reg[r], x) = TimesOfPair(reg[r], b)} : b \in X /\ Cardinality(X) <= 3}) :
       LET o == reg[r]
           g == <<b>> \o SetToSeq(C \ {b})
           rest == SetToSeq(PairsIn(o) \ C)
           G == <<g>> \o (IF o.win = "exact" THEN <<>> ELSE [i \in DOMAIN rest |-> <<rest[i]>>])
           n == Averaged(o, G)
           e == IF inplace THEN r ELSE d
       IN /\ Put(e, n)
          /\ Rec("gavg", [reg |-> r, to |-> e, group |-> g, inplace |-> inplace], TRUE, <<[reg |-> e, obj |-> n]>>)

(* --------------------------------------------------------- common samples *)
CommonCrit(q, fl) ==
  LET inall(F(_)) == {x \in F(q[1]) : \A i \in DOMAIN q : x \in F(q[i])}
      avgs(o) == Avgs(TimesIn(o))
      (* folded and unfolded windows have different delays, so none in common *)
      mixed == \E i \in DOMAIN q : q[i].folded # q[1].folded
  IN [spws |-> IF "spws" \in fl THEN IF mixed THEN {} ELSE inall(SpwSet) ELSE {-1}, bls |-> {}, both |-> FALSE,
      blps |-> IF "blpairs" \in fl THEN inall(PairsIn) ELSE {},
      times |-> IF "times" \in fl THEN inall(avgs) ELSE {}, lsts |-> IF "lsts" \in fl THEN inall(avgs) ELSE {},
      pols |-> IF "polpairs" \in fl THEN inall(PolSet) ELSE {}]
CommonOK(q, fl) ==
  LET k == CommonCrit(q, fl)
  IN /\ "spws" \in fl => k.spws # {}
     /\ "blpairs" \in fl => k.blps # {}
     /\ "times" \in fl => k.times # {}
     /\ "lsts" \in fl => k.lsts # {}
     /\ "polpairs" \in fl => k.pols # {}
     /\ \A i \in DOMAIN q : SelOK(q[i], k)
Common ==
  /\ Cardinality(Full) >= 2
  /\ \E C \in Pick({X \in SUBSET Full : Cardinality(X) \in 2..3}) :
     \E q \in Pick(Perm(C)), fl \in Pick({f \in SUBSET {"spws", "blpairs", "times", "lsts", "polpairs"} : ~({"times", "lsts"} \subseteq f)}), inp \in Bern(3) :
       LET objs == [i \in DOMAIN q |-> reg[q[i]]]
           inplace == inp /\ CommonOK(objs, fl)
           res == [i \in DOMAIN q |-> Sel(objs[i], CommonCrit(objs, fl))]
       IN IF ~Injective(UNION {TimesIn(objs[i]) : i \in DOMAIN q}) \/ ~CommonOK(objs, fl)
          THEN /\ None
               /\ Rec("common", [regs |-> q, flags |-> fl, inplace |-> FALSE,
                                 skip |-> ~Injective(UNION {TimesIn(objs[i]) : i \in DOMAIN q})], FALSE, <<>>)
          ELSE /\ reg' = [r \in 1..NReg |-> IF r \in C THEN res[CHOOSE i \in DOMAIN q : q[i] = r] ELSE reg[r]]
               /\ UNCHANGED file
               /\ Rec("common", [regs |-> q, flags |-> fl, inplace |-> inplace, skip |-> FALSE], TRUE,
                      [i \in DOMAIN q |-> [reg |-> q[i], obj |-> res[i]]])

(* ------------------------------------------------------------- difference *)
SubPair(a, b) ==
  LET k == CommonCrit(<<a, b>>, {"spws", "blpairs", "lsts", "polpairs"})
      x == Sel(a, k)
      y == Sel(b, k)
      t2(t) == CHOOSE u \in TimesIn(y) : Avg(u) = Avg(t)
  IN [x EXCEPT !.plain = FALSE,
        !.cells = {<<c[1], c[2], c[3], c[4],
                     <<"sub", a.folded, c[5], t2(c[3]), ValAt(y, c[1], c[2], t2(c[3]), c[4]),
                       SetToSeq({<<d[3], d[5], t2(d[3]), ValAt(y, c[1], c[2], t2(d[3]), c[4])>> :
                                  d \in {d \in x.cells : d[1] = c[1] /\ d[2] = c[2] /\ d[4] = c[4]}})>>>> : c \in @}]
SubOK(a, b) ==
  LET k == CommonCrit(<<a, b>>, {"spws", "blpairs", "lsts", "polpairs"})
  IN /\ CommonOK(<<a, b>>, {"spws", "blpairs", "lsts", "polpairs"})
     /\ \A p \in PairsIn(Sel(a, k)) :
          Avgs(TimesOfPair(Sel(a, k), p)) = Avgs(TimesOfPair(Sel(b, k), p))
SubAllowed(a, b) == /\ a.plain /\ b.plain /\ Injective(TimesIn(a) \cup TimesIn(b))
                    /\ a.stats = b.stats /\ a.cov = b.cov /\ a.covm = b.covm /\ a.win = b.win /\ Static(a) = Static(b)
                    /\ a.rpar = b.rpar
Subtract ==
  /\ \E x \in Pick({x \in Full \X Full : SubAllowed(reg[x[1]], reg[x[2]])}), d \in Pick(1..NReg) :
       LET a == reg[x[1]]
           b == reg[x[2]]
       IN IF SubOK(a, b)
          THEN /\ Put(d, SubPair(a, b))
               /\ Rec("sub", [a |-> x[1], b |-> x[2], to |-> d], TRUE, <<[reg |-> d, obj |-> SubPair(a, b)]>>)
          ELSE /\ None /\ Rec("sub", [a |-> x[1], b |-> x[2], to |-> 0], FALSE, <<>>)

(* objects made to be subtracted from each other: same style, overlapping cells *)
Couple ==
  \E S \in Pick(Small(Spws, 2)), B \in Pick(Small(Blps, 3)), T \in Pick(Small(0..4, 3)), P \in Pick(Small(Pols, 2)), f \in Pick(Styles),
     n \in Pick(0..30), cosmo \in Pick(0..2), folded \in Bern(4) :
   \E S2 \in Pick({S, S, S \cup {RandomElement(Spws)}}), B2 \in Pick({B, B, B \cup {RandomElement(Blps)}}), T2_ \in Pick({T, T, T \cup {RandomElement(0..4)}, {RandomElement(0..4)}}),
      P2 \in Pick({P, P, P \cup {RandomElement(Pols)}}), x \in Pick(B \X T) :
     LET ft == [Styled(f) EXCEPT !.cosmo = cosmo, !.folded = folded]
         R1 == B \X T
         R2 == IF n % 7 = 0 /\ (B2 \X T2_) \ {x} # {} THEN (B2 \X T2_) \ {x} ELSE B2 \X T2_
         o1 == Obj(Rotate(SortSpws(S), n % 3), Product(S, R1, P, n % 4), ft)
         o2 == Obj(Rotate(SortSpws(S2), n % 2), Product(S2, R2, P2, (n + 1) % 4), ft)
     IN /\ reg' = [reg EXCEPT ![1] = o1, ![2] = o2] /\ UNCHANGED file
        /\ Rec("tile", [axis |-> "none", k |-> 0, spoil |-> "no"], TRUE, <<[reg |-> 1, obj |-> o1], [reg |-> 2, obj |-> o2]>>)

CEnabled(op) ==
  CASE op = "dsq" -> {r \in Plainish : reg[r].dsq = 0} # {}
    [] op = "cosmo" -> Rescalable # {}
    [] op = "bias" -> Full # {}
    [] op = "acov" -> {r \in Full : 1 \notin ToSet(reg[r].spws)} # {}
    [] op = "gavg" -> {r \in Full : reg[r].ord /\ reg[r].plain /\ ~reg[r].rpar} # {}
    [] op = "common" -> Cardinality(Full) >= 2
    [] op = "sub" -> {x \in Full \X Full : SubAllowed(reg[x[1]], reg[x[2]])} # {}
    [] op = "couple" -> TRUE
    [] op = "combine" -> Cardinality(Full) >= 2 /\ \A x, y \in Full : reg[x].scal = reg[y].scal
    [] op = "combinetile" -> last.op = "tile" /\ last.args.k > 0
    [] OTHER -> Enabled(op)
CDo(op) == CASE op = "dsq" -> ToDeltaSq [] op = "cosmo" -> Cosmology [] op = "bias" -> Bias [] op = "acov" -> ApproxCov
             [] op = "gavg" -> GroupAvg [] op = "common" -> Common [] op = "sub" -> Subtract [] op = "couple" -> Couple
             [] OTHER -> Do(op)
CNext == /\ step < MaxStep /\ step' = step + 1
         /\ \E i \in {RandomElement(1..Len(COps))} :
              IF last.op = "tile" /\ last.args.k > 0 /\ "combinetile" \in ToSet(COps) THEN CombineTile
              ELSE IF CEnabled(COps[i]) THEN CDo(COps[i]) ELSE Couple
CSpec == Init /\ [][CNext]_vars
=============================================================================
