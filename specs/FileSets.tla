------------------------------ MODULE FileSets ------------------------------
(* Which cross spectra to form from a set of visibility files.                *)
(*                                                                            *)
(* A file <<place, polarization, group, chunk>> holds one polarization of one *)
(* group ("even", "odd", ...) of integrations.  Templates with a wildcard for *)
(* the chunk name files of a place, patterns exclude files.  Wanted are lists *)
(* of polarization pairs and group pairs, paired up; those are configured of  *)
(* which both sides have a file, each with the baseline pairs of the array    *)
(* (module Redundant), whichever chunks the files are of.                     *)
EXTENDS Redundant

VARIABLE files
fvars == <<pos, data, last, step, files>>

Places == {"zen", "abs", "sub/day1"}
Pols == {"xx", "yy", "xy"}
Grps == {"even", "odd", "third"}
Chunks == {"1", "2", "10"}
AllFiles == Places \X Pols \X Grps \X Chunks

Wild == [all |-> Chunks, ones |-> {"1", "10"}, short |-> {"1", "2"}, two |-> {"2"}, one |-> {"1"}, nine |-> {}]
Match(t) == {f \in files : f[1] = t.place /\ f[4] \in Wild[t.wild]}
(* what a pattern excludes *)
Patterns == {<<"place", x>> : x \in Places} \cup {<<"pol", x>> : x \in Pols} \cup {<<"grp", x>> : x \in Grps}
            \cup {<<"chunk", x>> : x \in Chunks} \cup {<<"tens", "1">>, <<"both", "even">>, <<"both", "odd">>, <<"none", "nothing">>}
Hit(p, f) == CASE p[1] = "place" -> f[1] = p[2] [] p[1] = "pol" -> f[2] = p[2] [] p[1] = "grp" -> f[3] = p[2]
               [] p[1] = "chunk" -> f[4] = p[2] [] p[1] = "tens" -> f[4] \in {"1", "10"}
               [] p[1] = "both" -> f[2] = "xx" /\ f[3] = p[2] [] OTHER -> FALSE
Found(ts, ex, want) ==
  {f \in UNION {Match(ts[i]) : i \in DOMAIN ts} :
     /\ \E i \in DOMAIN want : f[2] \in Range(want[i].pols)
     /\ \E i \in DOMAIN want : f[3] \in Range(want[i].grps)
     /\ \A p \in ex : ~Hit(p, f)}
Side(F, pol, grp) == \E f \in F : f[2] = pol /\ f[3] = grp
Ready(F, w) == Side(F, w.pols[1], w.grps[1]) /\ Side(F, w.pols[2], w.grps[2])

Arrange ==
  \E n \in Pick({3, 6, 20, 40, 81}) : \E r \in Pick([AllFiles -> 1..81]) :
    /\ files' = {f \in AllFiles : r[f] <= n}
    /\ last' = [op |-> "arrange", files |-> files']
    /\ UNCHANGED <<pos, data>>

(* files come and go *)
Swap ==
  \E a \in Pick(AllFiles), b \in Pick(IF files = {} THEN AllFiles ELSE files) :
    /\ files' = (files \cup {a}) \ (IF a = b THEN {} ELSE {b})
    /\ last' = [op |-> "arrange", files |-> files']
    /\ UNCHANGED <<pos, data>>

Config ==
  \E n \in Pick(1..3), w1 \in Pick(1..5), w2 \in Pick(1..5), w3 \in Pick(1..5), p1 \in Pick(Places), p2 \in Pick(Places), p3 \in Pick(Places),
     ne \in Pick({0, 0, 0, 1, 1, 2}), e1 \in Pick(Patterns), e2 \in Pick(Patterns), nw \in Pick(1..4),
     po \in Pick([1..8 -> 1..6]), au \in Pick(1..4), k \in Pick(0..12), pm \in Pick(BOOLEAN), na \in Pick(BOOLEAN), x \in Pick({0, 1, 2, 3}),
     xa \in Pick(Ants), xb \in Pick(Ants) :
  \E lim \in Pick(Limits(k)) :
    LET wn == <<"all", "ones", "short", "two", "one">>
        ts == SubSeq(<<[place |-> p1, wild |-> wn[w1]], [place |-> p2, wild |-> wn[w2]], [place |-> p3, wild |-> wn[w3]]>>, 1, n)
        ex == IF ne = 0 THEN {} ELSE IF ne = 1 THEN {e1} ELSE {e1, e2}
        pol(i) == <<"xx", "xx", "yy", "xx", "yy", "xy">>[i]
        grp(i) == <<"even", "odd", "third", "odd", "even", "even">>[i]
        want == [i \in 1..nw |-> [pols |-> <<pol(po[2 * i - 1]), IF po[i] % 2 = 0 THEN pol(po[2 * i - 1]) ELSE pol(po[2 * i])>>,
                                  grps |-> <<grp(po[9 - i]), grp(po[i + 2])>>]]
        F == Found(ts, ex, want)
        good == Ants \ (IF x = 1 THEN {xa} ELSE IF x = 2 THEN {xa, xb} ELSE {})
        o == [noautos |-> na, nocross |-> FALSE, noperm |-> pm, filter |-> FALSE]
        rs == Reds(good, lim, au = 1, TRUE)
    IN /\ last' = [op |-> "config", templates |-> ts, exclude |-> ex, want |-> want, keys |-> {want[i] : i \in {j \in 1..nw : Ready(F, want[j])}},
                   any |-> F # {}, matched |-> Found(ts, {}, want) # {}, autos |-> au = 1, o |-> o, per |-> 0, lim |-> lim, given |-> Ants \ good, hasgiven |-> x > 0,
                   groups |-> {[c |-> g.c, bls |-> g.bls, must |-> Must(g.bls, o), may |-> Every(g.bls, o)] : g \in rs}]
       /\ UNCHANGED <<pos, data, files>>

FInit == Init /\ files = {}
FNext == /\ step < MaxStep /\ step' = step + 1
         /\ IF step = 0 THEN Layout /\ UNCHANGED files
            ELSE IF step = 1 THEN Arrange
            ELSE \E k \in {RandomElement(1..5)} : CASE k = 1 -> Swap [] OTHER -> Config
FSpec == FInit /\ [][FNext]_fvars

(* --------------------------------------------------------------- properties *)
ConfigDid == last.op = "config"
Sound == ConfigDid => /\ last.keys \subseteq Range(last.want)
                      /\ (~last.any => last.keys = {})
                      /\ \A w \in last.keys : \A i \in 1..2 : \E f \in files : f[2] = w.pols[i] /\ f[3] = w.grps[i]
(* without exclusions and with templates of everything, a request is configured exactly if its files exist *)
Complete == ConfigDid => \A w \in Range(last.want) :
   (last.exclude = {} /\ \A p \in Places : \E i \in DOMAIN last.templates : last.templates[i] = [place |-> p, wild |-> "all"]) =>
      (w \in last.keys <=> \A i \in 1..2 : \E f \in files : f[2] = w.pols[i] /\ f[3] = w.grps[i])
(* the order of the two sides of a request does not matter *)
Swapped(w) == [pols |-> <<w.pols[2], w.pols[1]>>, grps |-> <<w.grps[2], w.grps[1]>>]
Symmetric == ConfigDid => \A w \in Range(last.want) : Swapped(w) \in Range(last.want) => (w \in last.keys <=> Swapped(w) \in last.keys)
Clean == ConfigDid => \A g \in last.groups : \A b \in g.may : Vec(b[1]) = Vec(b[2]) /\ {b[1][1], b[1][2], b[2][1], b[2][2]} \cap last.given = {}
=============================================================================
