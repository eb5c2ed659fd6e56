------------------------------ MODULE Command ------------------------------
(* What the command lines do.                                                *)
(*                                                                           *)
(* A command line is a sequence of options written with values.  Three tools *)
(* hand what is written to a function: every parameter of the function gets  *)
(* the value written (the last one, if an option is written twice), or the   *)
(* documented default if its option is not written.  Nothing else of the     *)
(* line reaches the function, and a malformed line reaches no function.      *)
(*                                                                           *)
(* Two tools work on files.  One adds pseudo-Stokes visibilities to those of *)
(* a file; one computes noise errors of the spectra of a container, of all   *)
(* or of those named.  Configuration files are trees with "None" for None    *)
(* and lists of lists for lists of tuples.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Random, MaxStep, Emit
ASSUME Random \in BOOLEAN /\ MaxStep \in Nat

VARIABLES tool, line,  \* the command line being written
          files,       \* polarizations of visibility files
          marks,       \* of every spectrum of the container, the errors it has
          conf,        \* a configuration file: path -> <<kind, number>>
          last, step
vars == <<tool, line, files, marks, conf, last, step>>

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Mostly(x, S, n) == IF Random THEN {IF RandomElement(1..n) = 1 THEN RandomElement(S) ELSE x} ELSE S \cup {x}
Range(s) == {s[i] : i \in DOMAIN s}

(* ------------------------------------------------------------ the tools     *)
O(name, par, kind, def) == [name |-> name, par |-> par, kind |-> kind, def |-> def]
S(name, kind, def) == O(name, name, kind, def)
OPT == [
  pspec |-> <<
    S("dsets_std", "strs", "None"), S("groupname", "str", "None"), S("dset_pairs", "pairs", "None"), S("dset_labels", "strs", "None"),
    S("spw_ranges", "pairs", "None"), S("n_dlys", "ints", "None"), S("pol_pairs", "spairs", "None"), S("blpairs", "quads", "None"),
    S("input_data_weight", "str", "'identity'"), S("norm", "str", "'I'"), S("taper", "str", "'none'"), S("beam", "str", "None"),
    S("cosmo", "cosmo", "None"), S("rephase_to_dset", "int", "None"), S("trim_dset_lsts", "flag", "False"),
    S("broadcast_dset_flags", "flag", "False"), S("time_thresh", "float", "0.2"), S("Jy2mK", "flag", "False"),
    S("exclude_auto_bls", "flag", "False"), S("exclude_cross_bls", "flag", "False"), S("exclude_permutations", "flag", "False"),
    S("Nblps_per_group", "int", "None"), S("bl_len_range", "range", "(0, 1e10)"), S("bl_deg_range", "range", "(0, 180)"),
    S("bl_error_tol", "float", "1.0"), S("store_cov", "flag", "False"), S("store_cov_diag", "flag", "False"), S("return_q", "flag", "False"),
    S("overwrite", "flag", "False"), S("cov_model", "str", "'empirical'"), S("psname_ext", "str", "''"), S("verbose", "flag", "False"),
    S("file_type", "str", "'uvh5'"), S("filter_extensions", "pairs", "None"), S("symmetric_taper", "bool", "True"),
    S("include_autocorrs", "flag", "False"), O("exclude_crosscorrs", "include_crosscorrs", "noflag", "True"),
    S("interleave_times", "flag", "False"), S("xant_flag_thresh", "float", "0.95"), S("store_window", "flag", "False"),
    S("allow_fft", "flag", "False") >>,
  boot |-> <<
    S("spectra", "strs", "None"), S("blpair_groups", "groups", "None"), S("time_avg", "bool", "False"), S("Nsamples", "int", "100"),
    S("seed", "int", "0"), S("normal_std", "bool", "True"), S("robust_std", "bool", "False"), S("cintervals", "floats", "None"),
    S("keep_samples", "flag", "False"), S("bl_error_tol", "float", "1.0"), S("overwrite", "flag", "False"),
    S("add_to_history", "str", "''"), S("verbose", "flag", "False") >>,
  merge |-> <<
    S("dset_split_str", "str", "'_x_'"), S("ext_split_str", "str", "'_'"), S("verbose", "flag", "False") >> ]
Tools == {"pspec", "boot", "merge"}
Opts(t) == DOMAIN OPT[t]

(* values: a list of tuples of numbers, shaped as the kind of option has it   *)
Flags == {"flag", "noflag"}
Pairs == {"pairs", "spairs", "quads"}
Many == Pairs \cup {"ints", "strs", "floats", "groups", "cosmo"}
Width(kind, r, k) == CASE kind \in {"pairs", "spairs"} -> 2 [] kind = "quads" -> 4 [] kind = "groups" -> 1 + (r[k] % 3) [] OTHER -> 1
Length(kind, n) == CASE kind \in Flags -> 0 [] kind = "cosmo" -> 2 * n [] kind = "range" -> 2 [] kind \in Many -> n [] OTHER -> 1
Value(kind, n, r) == [k \in 1..Length(kind, n) |-> [j \in 1..Width(kind, r, k) |-> r[1 + ((5 * k + 3 * j) % 12)]]]
Shift(r, i) == [k \in 1..12 |-> r[1 + ((7 * i + k) % 12)]]
Forms == {"tilde", "space"}

(* what reaches the function *)
Written(o) == {i \in DOMAIN line : line[i].opt = o}
LastOf(X) == CHOOSE i \in X : \A j \in X : j <= i
Arg(t, ln, o) ==
  LET W == {i \in DOMAIN ln : ln[i].opt = o}
  IN IF W = {} THEN [par |-> OPT[t][o].par, kind |-> "default", v |-> <<>>, def |-> OPT[t][o].def]
     ELSE [par |-> OPT[t][o].par, kind |-> OPT[t][o].kind, v |-> ln[LastOf(W)].v, def |-> ""]
Call(t, ln) == [o \in Opts(t) |-> Arg(t, ln, o)]

Shown0 == [i \in DOMAIN line |-> [name |-> OPT[tool][line[i].opt].name, kind |-> OPT[tool][line[i].opt].kind, v |-> line[i].v,
                                  form |-> line[i].form, many |-> OPT[tool][line[i].opt].kind \in Many \cup {"range"}]]

Turn ==
  \E t \in Pick(Tools) :
    /\ tool' = t /\ line' = <<>> /\ last' = [op |-> "turn"]
    /\ UNCHANGED <<files, marks, conf>>

Write ==
  \E o \in Pick(Opts(tool)), n \in Pick(1..3), r \in Pick([1..12 -> 0..40]), f \in Pick(Forms), again \in Mostly(FALSE, {TRUE}, 8) :
    /\ again \/ Written(o) = {}
    /\ Len(line) < 12
    /\ line' = Append(line, [opt |-> o, v |-> Value(OPT[tool][o].kind, n, r), form |-> f])
    /\ last' = [op |-> "write"]
    /\ UNCHANGED <<tool, files, marks, conf>>

(* a new line, with every option once *)
First(os, n) == SelectSeq([i \in 1..n |-> i], LAMBDA i : \A j \in 1..i - 1 : os[j] # os[i])
Compose ==
  \E n \in Pick(1..12), os \in Pick([1..12 -> Opts(tool)]), r \in Pick([1..12 -> 0..40]), m \in Pick([1..12 -> 1..3]), f \in Pick([1..12 -> Forms]) :
    LET ks == First(os, n)
    IN /\ line' = [i \in DOMAIN ks |-> [opt |-> os[ks[i]], v |-> Value(OPT[tool][os[ks[i]]].kind, m[i], Shift(r, i)), form |-> f[i]]]
       /\ last' = [op |-> "compose"]
       /\ UNCHANGED <<tool, files, marks, conf>>

(* the order of options does not matter *)
Swap ==
  \E i \in Pick(DOMAIN line), j \in Pick(DOMAIN line) :
    /\ line[i].opt # line[j].opt
    /\ \A k \in DOMAIN line \ {i} : line[k].opt # line[i].opt
    /\ \A k \in DOMAIN line \ {j} : line[k].opt # line[j].opt
    /\ line' = [line EXCEPT ![i] = line[j], ![j] = line[i]]
    /\ last' = [op |-> "swap"]
    /\ UNCHANGED <<tool, files, marks, conf>>

Erase ==
  \E i \in Pick(DOMAIN line) :
    /\ line' = [k \in 1..Len(line) - 1 |-> IF k < i THEN line[k] ELSE line[k + 1]]
    /\ last' = [op |-> "erase"]
    /\ UNCHANGED <<tool, files, marks, conf>>

Run ==
  \E n \in Pick(1..3), log \in Mostly("", {"level", "plain"}, 4), at \in Pick({"first", "end"}) :
    /\ last' = [op |-> "call", tool |-> tool, line |-> Shown0, args |-> [o \in Opts(tool) |-> Arg(tool, line, o)], inputs |-> n, log |-> log,
                at |-> at]
    /\ UNCHANGED <<tool, line, files, marks, conf>>

(* a line with something wrong in it *)
Wrongs == {"unknown", "word", "nothing", "short", "surplus"}
Malformed ==
  \E w \in Pick(Wrongs), o \in Pick({p \in Opts(tool) : OPT[tool][p].kind \in {"int", "float", "bool", "ints", "pairs", "quads", "groups", "floats"}} \cup {0}) :
    /\ w = "word" => o # 0
    /\ last' = [op |-> "wrong", tool |-> tool, line |-> Shown0, how |-> w,
                name |-> IF o = 0 THEN "" ELSE OPT[tool][o].name, kind |-> IF o = 0 THEN "" ELSE OPT[tool][o].kind]
    /\ UNCHANGED <<tool, line, files, marks, conf>>

(* -------------------------------------------- pseudo-Stokes visibilities    *)
Names == {"a", "b", "c"}
Lin == {"xx", "yy", "xy", "yx"}
Sto == {"pI", "pQ", "pU", "pV"}
Need(p) == IF p \in {"pI", "pQ"} THEN {"xx", "yy"} ELSE {"xy", "yx"}
Held == {{"xx", "yy"}, {"xy", "yx"}, Lin, {"xx", "yy", "xy"}}

Deposit ==
  \E n \in Pick(Names), h \in Pick(Held) :
    /\ files' = [files EXCEPT ![n] = [there |-> TRUE, pols |-> h]]
    /\ last' = [op |-> "deposit", name |-> n, pols |-> h]
    /\ UNCHANGED <<tool, line, marks, conf>>

Made(want, keep, have) ==   \* what has to be made of the polarizations in the file
  IF keep THEN Range(want) \ have ELSE Range(want)
Target(to, from) == IF to = "" THEN from ELSE to
Stokes ==
  \E from \in Pick({n \in Names : files[n].there}), to \in Pick(Names \cup {""}), n \in Pick(0..3), w \in Pick([1..3 -> Sto]), keep \in Pick(BOOLEAN),
     clobber \in Pick(BOOLEAN) :
    LET want == IF n = 0 THEN <<"pI">> ELSE SubSeq(w, 1, n)
        have == files[from].pols
        able == \A p \in Made(want, keep, have) : Need(p) \subseteq have
        free == clobber \/ ~files[Target(to, from)].there
        new == (IF keep THEN have ELSE {}) \cup Range(want)
    IN /\ files' = IF able /\ free THEN [files EXCEPT ![Target(to, from)] = [there |-> TRUE, pols |-> new]] ELSE files
       /\ last' = [op |-> "stokes", from |-> from, to |-> to, asked |-> IF n = 0 THEN <<>> ELSE want, keep |-> keep, clobber |-> clobber,
                   ok |-> able /\ free, have |-> have, pols |-> new]
       /\ UNCHANGED <<tool, line, marks, conf>>

(* ------------------------------------------------ noise errors of spectra   *)
Groups == {"g1", "g2"}
Specs == {"s1", "s2", "s1_x"}
Cells == Groups \X Specs
Errs == {<<>>, <<"P_N">>, <<"P_N", "P_SN">>}
Noise ==
  \E g \in Pick({{}, {}, {"g1"}, {"g2"}, {"g1", "g2"}}), some \in Pick(BOOLEAN), r \in Pick([Cells -> BOOLEAN]), e \in Pick(Errs) :
    LET named == {c \in Cells : r[c]}
        done == {c \in Cells : (g = {} \/ c[1] \in g) /\ (~some \/ c \in named)}
        errs == IF e = <<>> THEN {"P_N"} ELSE Range(e)
    IN /\ some => named # {}
       /\ marks' = [c \in Cells |-> IF c \in done THEN marks[c] \cup errs ELSE marks[c]]
       /\ last' = [op |-> "noise", groups |-> g, spectra |-> IF some THEN named ELSE {}, err |-> e, done |-> done, marks |-> {<<c, marks'[c]>> : c \in Cells}]
       /\ UNCHANGED <<tool, line, files, conf>>

(* ---------------------------------------------------- configuration files   *)
Paths == {<<x>> : x \in {"p", "q", "r"}} \cup {<<x, y>> : x \in {"s", "t"}, y \in {"p", "q"}} \cup {<<"u", "v", y>> : y \in {"p", "q"}}
CKinds == {"none", "int", "float", "text", "bool", "null", "ints", "texts", "pairs", "quads", "empty", "tuples1"}
Become(k) == CASE k = "none" -> "null" [] k \in {"pairs", "quads", "tuples1"} -> "tuples" [] OTHER -> "same"
Note ==
  \E ps \in Pick(SUBSET Paths), k \in Pick([Paths -> CKinds]), n \in Pick([Paths -> 0..30]) :
    /\ conf' = [x \in ps |-> <<k[x], n[x]>>]
    /\ last' = [op |-> "note"]
    /\ UNCHANGED <<tool, line, files, marks>>
Load ==
  /\ conf # <<>>
  /\ last' = [op |-> "load", conf |-> {<<p, conf[p][1], conf[p][2], Become(conf[p][1])>> : p \in DOMAIN conf}]
  /\ UNCHANGED <<tool, line, files, marks, conf>>

Init ==
  /\ tool = "pspec" /\ line = <<>> /\ conf = <<>> /\ step = 0
  /\ files = [n \in Names |-> [there |-> FALSE, pols |-> {}]]
  /\ marks = [c \in Cells |-> {}]
  /\ last = [op |-> "init"]

AnyFile == \E n \in Names : files[n].there
Next ==
  /\ step < MaxStep /\ step' = step + 1
  /\ IF Random
     THEN \E k \in {RandomElement(1..30)} :
            CASE k <= 2 -> Turn
              [] k \in (3..6) \cup (27..30) -> Compose
              [] k \in 7..8 /\ Len(line) < 12 /\ Len(line) < Len(OPT[tool]) -> Write
              [] k = 9 /\ Len(line) > 1 /\ (\A i, j \in DOMAIN line : i # j => line[i].opt # line[j].opt) -> Swap
              [] k = 10 /\ Len(line) > 0 -> Erase
              [] k \in 11..12 -> Malformed
              [] k \in 13..14 -> Deposit
              [] k \in 15..18 /\ AnyFile -> Stokes
              [] k = 19 -> Noise
              [] k \in 20..21 -> Note
              [] k = 22 /\ conf # <<>> -> Load
              [] OTHER -> Run
     ELSE Turn \/ Compose \/ Write \/ Swap \/ Erase \/ Run \/ Malformed \/ Deposit \/ (AnyFile /\ Stokes) \/ Noise \/ Note \/ Load
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- properties *)
(* every parameter belongs to one option *)
Distinct == \A t \in Tools : \A o, p \in Opts(t) : o # p => OPT[t][o].par # OPT[t][p].par /\ OPT[t][o].name # OPT[t][p].name
Unwritten == \A o \in Opts(tool) : Written(o) = {} <=> Call(tool, line)[o].kind = "default"
OrderFree == [][last'.op = "swap" => Call(tool, line') = Call(tool, line)]_vars
(* writing an option changes the one argument; erasing one that is written once gives the default back *)
OneArg == [][last'.op = "write" => \A o \in Opts(tool) : o # line'[Len(line')].opt => Call(tool, line')[o] = Call(tool, line)[o]]_vars
NoEffect == [][last'.op \in {"call", "wrong", "load"} => UNCHANGED <<tool, line, files, marks, conf>>]_vars
Kept == [][last'.op = "stokes" => \A n \in Names : (files[n].there => files'[n].there) /\ (files'[n] # files[n] => n = Target(last'.to, last'.from))]_vars
Whole == [][(last'.op = "stokes" /\ last'.ok) => Range(last'.asked) \subseteq files'[Target(last'.to, last'.from)].pols]_vars
Guarded == [][(last'.op = "stokes" /\ ~last'.clobber) => \A n \in Names : files[n].there => files'[n] = files[n]]_vars
Grows == [][\A c \in Cells : marks[c] \subseteq marks'[c]]_vars
OnlyNamed == [][last'.op = "noise" => \A c \in Cells : marks'[c] # marks[c] => c \in last'.done]_vars
Shown == ~Emit \/ PrintT("@@" \o ToJson([n |-> step, act |-> last]))
=============================================================================
