------------------------------ MODULE Estimate ------------------------------
(* A power-spectrum estimation run.                                         *)
(*                                                                          *)
(* A request names two data sets, baseline-pairs, polarization pairs,       *)
(* spectral windows and options.  The result has a cell for every window,   *)
(* every row <<baseline-pair, time>> and every polarization pair that both  *)
(* data sets hold.  The specification says from which visibilities a cell   *)
(* is formed (Key1, Key2) and which cells a change of a single sample, flag *)
(* or sample count can reach (Reach, Must): the value of a cell is a        *)
(* function of nothing else.                                                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, Randomization

CONSTANTS Random, MaxStep, Emit

VARIABLES cfg,   \* [pols : data set -> sequence of polarizations, bls : data set -> sequence of baselines, chan, tim, spot : flags, std]
          req,   \* the last request
          last, step
vars == <<cfg, req, last, step>>

NT == 4  NF == 10
Sets == 0..2
Bls == 0..2                    \* baselines (0,1), (1,2), (2,3); a data set holds some of them in any order
Pols == {"xx", "yy"}
DKeys == {<<d, b, p>> : d \in Sets, b \in Bls, p \in Pols}
Windows == {<<0, 10>>, <<2, 8>>, <<1, 5>>, <<5, 9>>, <<3, 9>>, <<4, 10>>}
Exts == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>}
Len12(w) == w[2] - w[1]
Least(a, b) == IF a < b THEN a ELSE b
ExtWin(w, e) == <<w[1] - Least(e[1], w[1]), w[2] + Least(e[2], NF - w[2])>>
In(c, w) == w[1] <= c /\ c < w[2]
Chans == 0..NF - 1
Times == 0..NT - 1
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S

(* ------------------------------------------------------------------- flags *)
Flagged(c, k, t, ch) == <<k, ch>> \in c.chan \/ <<k, t>> \in c.tim \/ <<k, t, ch>> \in c.spot
Dead(c, k, ch) == \A t \in Times : Flagged(c, k, t, ch)          \* a channel without any weight
Separable(c) == c.spot = {}
FlaggedRow(c, k, t, w) == \A ch \in Chans : In(ch, w) => Flagged(c, k, t, ch)

(* -------------------------------------------------------------- the result *)
(* a member of a baseline-pair is <<baseline, reversed?>>; reversed members are the conjugate data *)
Valid(c, r) == SelectSeq(r.pols, LAMBDA q : q[1] \in Range(c.pols[r.dsets[1]]) /\ q[2] \in Range(c.pols[r.dsets[2]]))
Key1(r, bp, q) == <<r.dsets[1], bp[1][1], q[1]>>
Key2(r, bp, q) == <<r.dsets[2], bp[2][1], q[2]>>
Rows(r) == [i \in 1..Len(r.blps) * NT |-> <<(i - 1) \div NT + 1, (i - 1) % NT>>]     \* <<pair number, time>>
Cells(c, r) == {<<i, n, j>> : i \in DOMAIN r.windows, n \in 1..Len(r.blps) * NT, j \in DOMAIN Valid(c, r)}
Time(r, n) == Rows(r)[n][2]
Blp(r, n) == r.blps[Rows(r)[n][1]]
Win(r, i) == ExtWin(r.windows[i], r.exts[i])
(* weightings and normalizations formed from the covariance of all times *)
AllTimes(r) == r.wt = "iC" \/ r.norm = "V^-1/2"

(* cells whose spectrum a change of the visibility <<key, time, channel>> can reach, and those it must reach *)
Touch(c, r, x, k, t, ch) ==
  LET q == Valid(c, r)[x[3]]  bp == Blp(r, x[2]) IN
  /\ k \in {Key1(r, bp, q), Key2(r, bp, q)}
  /\ In(ch, Win(r, x[1])) /\ (t = Time(r, x[2]) \/ AllTimes(r))
Reach(c, r, k, t, ch) == {x \in Cells(c, r) : Touch(c, r, x, k, t, ch) /\ ~Dead(c, k, ch)}
Must(c, r, k, t, ch) ==
  IF r.wt # "identity" \/ r.taper # "none" THEN {}
  ELSE {x \in Reach(c, r, k, t, ch) :
          LET q == Valid(c, r)[x[3]]  bp == Blp(r, x[2])  w == r.windows[x[1]]
              o == IF k = Key1(r, bp, q) THEN Key2(r, bp, q) ELSE Key1(r, bp, q)
          IN t = Time(r, x[2]) /\ In(ch, w) /\ \E c2 \in Chans : In(c2, w) /\ ~Dead(c, o, c2)}
(* the same for a flag: the weights of that time; if the channel dies or revives, the spectra of all times *)
ReachFlagW(c, r, k, t, ch) ==
  {x \in Cells(c, r) : LET q == Valid(c, r)[x[3]]  bp == Blp(r, x[2]) IN
      k \in {Key1(r, bp, q), Key2(r, bp, q)} /\ In(ch, Win(r, x[1])) /\ t = Time(r, x[2])}
ReachFlagD(c, c2, r, k, t, ch) ==
  IF Dead(c, k, ch) = Dead(c2, k, ch) /\ ~AllTimes(r) THEN {}
  ELSE {x \in Cells(c, r) : LET q == Valid(c, r)[x[3]]  bp == Blp(r, x[2]) IN
          k \in {Key1(r, bp, q), Key2(r, bp, q)} /\ In(ch, Win(r, x[1]))}
(* cells that count: neither member is flagged altogether *)
Counting(c, r) == {x \in Cells(c, r) : LET q == Valid(c, r)[x[3]]  bp == Blp(r, x[2])  t == Time(r, x[2]) IN
                     /\ ~FlaggedRow(c, Key1(r, bp, q), t, Win(r, x[1]))
                     /\ ~FlaggedRow(c, Key2(r, bp, q), t, Win(r, x[1]))}

(* dead channels, or fewer delays than channels, may leave no delay-independent normalization, which is refused *)
MayRefuse(c, r) == r.norm = "I" /\ r.wt = "identity" /\
  (\/ \E i \in DOMAIN r.nd : r.nd[i] # 0
   \/ \E x \in Cells(c, r), ch \in Chans : LET q == Valid(c, r)[x[3]]  bp == Blp(r, x[2]) IN
         /\ In(ch, Win(r, x[1])) /\ (Dead(c, Key1(r, bp, q), ch) \/ Dead(c, Key2(r, bp, q), ch)))

(* ----------------------------------------------------------------- actions *)
Rec(op, args, res) == last' = [op |-> op, args |-> args, res |-> res]
Sub(S, n) == RandomSubset(RandomElement(0..n), S)

Orders == {<<0, 1, 2>>, <<2, 0, 1>>, <<1, 2, 0>>, <<2, 1>>, <<1, 0>>, <<0, 2>>}
Make ==
  \E how \in Pick(1..5), o1 \in Pick(BOOLEAN), cut \in Pick(0..8), std \in Pick(BOOLEAN), order \in Pick([Sets -> Orders]) :
    \E chan \in {IF how \in {2, 4, 5} THEN Sub(DKeys \X Chans, 50) ELSE {}}, tim \in {IF how \in {3, 4, 5} THEN Sub(DKeys \X Times, 25) ELSE {}},
       spot \in {IF how = 5 THEN Sub({<<k, t, ch>> : k \in DKeys, t \in Times, ch \in Chans}, 100) ELSE {}} :
       /\ cfg' = [pols |-> [d \in Sets |-> IF d = cut THEN <<"yy">> ELSE IF o1 /\ d = 1 THEN <<"yy", "xx">> ELSE <<"xx", "yy">>],
                  bls |-> order, chan |-> chan, tim |-> tim, spot |-> spot, std |-> std]
       /\ req' = <<>>
       /\ Rec("make", [cfg |-> cfg'], <<>>)

Members == {<<b, r>> : b \in Bls, r \in BOOLEAN}
(* both members of a pair point the same way *)
Pairs(c, d1, d2) == {<<m1, m2>> \in Members \X Members : m1[2] = m2[2] /\ m1[1] \in Range(c.bls[d1]) /\ m2[1] \in Range(c.bls[d2])}
RSeq(S, n, rev) == IF rev THEN Reverse(SetToSeq(RandomSubset(n, S))) ELSE SetToSeq(RandomSubset(n, S))
Request ==
  \E d1 \in Pick(Sets), d2 \in Pick(Sets), nb \in Pick(1..4), nw \in Pick(1..3), np \in Pick(1..3), rot \in Pick(0..3),
     wt \in Pick({"identity", "identity", "iC", "dayenu"}), tp \in Pick({"none", "none", "blackman-harris"}),
     norm \in Pick({"I", "H^-1", "V^-1/2"}), sym \in Pick(BOOLEAN), cov \in Pick({"no", "empirical", "autos", "dsets"}),
     retq \in Pick({TRUE, FALSE}), useext \in Pick(1..3), useN \in Pick(1..3), beam \in Pick(1..6), str \in Pick(BOOLEAN), fft \in Pick(BOOLEAN) :
  \E ps \in {RSeq(Pairs(cfg, d1, d2), nb, rot > 1)}, ws \in {RSeq(Windows, nw, rot \in {1, 2})}, qs \in {RSeq({<<p1, p2>> : p1 \in Pols, p2 \in Pols}, np, rot \in {0, 2})} :
    LET bm == beam = 1
        pols == IF bm THEN (IF qs[1][1] = "xx" THEN <<<<"xx", "xx">>, <<"yy", "yy">>>> ELSE <<<<"yy", "yy">>>>) ELSE qs
        n == Len(ws)
    IN \E e1 \in Pick(Exts), e2 \in Pick(Exts), n1 \in Pick({0, 3, 4}), n2 \in Pick({0, 2, 3}) :
       LET r == [dsets |-> <<d1, d2>>, blps |-> ps, windows |-> ws, pols |-> pols, wt |-> wt,
                 taper |-> tp, norm |-> norm, sym |-> sym, cov |-> IF cov = "dsets" /\ ~cfg.std THEN "no" ELSE cov,
                 retq |-> retq, exts |-> IF useext = 1 THEN SubSeq(<<e1, e2, e1>>, 1, n) ELSE SubSeq(<<<<0, 0>>, <<0, 0>>, <<0, 0>>>>, 1, n),
                 nd |-> IF useN = 1 THEN SubSeq(<<n1, n2, n1>>, 1, n) ELSE SubSeq(<<0, 0, 0>>, 1, n), beam |-> bm, fft |-> fft]
       IN /\ req' = r /\ UNCHANGED cfg
          /\ Rec("run", r, [pols |-> Valid(cfg, r), rows |-> Rows(r), ok |-> Valid(cfg, r) # <<>>, may |-> MayRefuse(cfg, r),
                            counting |-> IF Valid(cfg, r) = <<>> THEN {} ELSE Counting(cfg, r)])

HasReq == req # <<>> /\ Valid(cfg, req) # <<>>
(* the samples of interest are mostly those of the request *)
SomeKey == IF Random /\ RandomElement(1..4) > 1
           THEN LET bp == RandomElement(Range(req.blps))  q == RandomElement(Range(Valid(cfg, req)))
                IN IF RandomElement(1..2) = 1 THEN Key1(req, bp, q) ELSE Key2(req, bp, q)
           ELSE RandomElement(DKeys)
Held(k) == k[3] \in Range(cfg.pols[k[1]]) /\ k[2] \in Range(cfg.bls[k[1]])

PerturbData == \E k \in {SomeKey}, t \in Pick(Times), ch \in Pick(Chans) :
  /\ Held(k) /\ UNCHANGED <<cfg, req>>
  /\ Rec("data", [k |-> k, t |-> t, ch |-> ch],
         [reach |-> Reach(cfg, req, k, t, ch), must |-> Must(cfg, req, k, t, ch),
          ignored |-> Separable(cfg) /\ Flagged(cfg, k, t, ch), counting |-> Counting(cfg, req)])

PerturbCount == \E k \in {SomeKey}, t \in Pick(Times), ch \in Pick(Chans) :
  /\ Held(k) /\ UNCHANGED <<cfg, req>>
  /\ Rec("nsample", [k |-> k, t |-> t, ch |-> ch],
         [reach |-> IF Flagged(cfg, k, t, ch) THEN {} ELSE ReachFlagW(cfg, req, k, t, ch)])

PerturbFlag == \E k \in {SomeKey}, t \in Pick(Times), ch \in Pick(Chans) :
  /\ Held(k) /\ ~Flagged(cfg, k, t, ch)
  /\ cfg' = [cfg EXCEPT !.spot = @ \cup {<<k, t, ch>>}] /\ UNCHANGED req
  /\ Rec("flag", [k |-> k, t |-> t, ch |-> ch],
         [reach |-> ReachFlagW(cfg, req, k, t, ch), data |-> ReachFlagD(cfg, cfg', req, k, t, ch)])

Init == /\ cfg = [pols |-> [d \in Sets |-> <<"xx", "yy">>], bls |-> [d \in Sets |-> <<0, 1, 2>>], chan |-> {}, tim |-> {}, spot |-> {}, std |-> FALSE]
        /\ req = <<>> /\ last = [op |-> "init"] /\ step = 0
Next == /\ step < MaxStep
        /\ step' = step + 1
        /\ \E r \in {RandomElement(1..100)} :
             CASE step = 0 -> Make
               [] ~HasReq \/ r <= 25 -> Request
               [] r <= 70 -> PerturbData
               [] r <= 80 -> PerturbCount
               [] OTHER -> PerturbFlag
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- invariants *)
(* a change reaches only cells formed from that key; what must change can change; a dead channel reaches nothing *)
Sane == last.op = "data" =>
          LET a == last.args IN
          /\ last.res.must \subseteq last.res.reach
          /\ \A x \in last.res.reach : LET q == Valid(cfg, req)[x[3]]  bp == Blp(req, x[2])
                                       IN a.k \in {Key1(req, bp, q), Key2(req, bp, q)}
          /\ Dead(cfg, a.k, a.ch) => last.res.reach = {}
(* once flags are separable, a flagged sample is in a dead channel or in a time that does not count *)
FlaggedIgnored == (last.op = "data" /\ last.res.ignored /\ ~AllTimes(req)) =>
                     last.res.reach \cap last.res.counting = {}
Shown == ~Emit \/ PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
