---------------------------- MODULE DatasetCache ----------------------------
(* The caches of a data set, and when their entries must be dropped.        *)
(*                                                                          *)
(* One key (one baseline of one data set).  Every stored matrix carries the *)
(* stamp of what it was made from; `Fresh' says that a stored matrix can be *)
(* handed out as the answer: it was made from what is in force now.  The    *)
(* constant Drop names the invalidations that are performed; with all of    *)
(* them `Fresh' holds, and without any single one of them it does not.      *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Drop, MaxVer

VARIABLES win, ext, sym, rp, ver, uc, uic,   \* what answers depend on; uc, uic: user covariance and inverse
          C, iC, Y, I, R                     \* stored matrices: stamps, or Nil; R is a function of the weighting
vars == <<win, ext, sym, rp, ver, uc, uic, C, iC, Y, I, R>>

Wts == {"identity", "iC", "dayenu"}
Nil == <<"nil">>
NoR == [w \in Wts |-> Nil]

(* what each matrix is made from *)
StampC == <<"c", win, ext, ver, uc>>
StampIC == <<"ic", win, ext, ver, uc, uic>>
StampY == <<"y", win, ext, ver>>
StampI == <<"i", win, ext>>
StampR(w) == CASE w = "identity" -> <<"r", win, ext, ver, sym>>
               [] w = "iC" -> <<"r", win, ext, ver, sym, uc, uic>>
               [] OTHER -> <<"r", win, ext, ver, sym, rp>>

(* user matrices live in the same store as computed ones: dropping the store drops them *)
All == C' = Nil /\ iC' = Nil /\ Y' = Nil /\ I' = Nil /\ R' = NoR /\ uc' = 0 /\ uic' = 0
KeepStore == UNCHANGED <<C, iC, Y, I, R, uc, uic>>
AllIf(x) == IF x \in Drop THEN All ELSE KeepStore

SetWin == \E w \in 1..2 : win' = w /\ w # win /\ AllIf("win") /\ UNCHANGED <<ext, sym, rp, ver>>
SetExt == \E e \in 0..1 : /\ ext' = e /\ e # ext /\ sym' = (sym /\ e = 0)
                          /\ AllIf("ext") /\ UNCHANGED <<win, rp, ver>>
SetSym == \E b \in BOOLEAN : /\ b # sym /\ ~(b /\ ext # 0) /\ sym' = b
                             /\ R' = (IF "sym" \in Drop THEN NoR ELSE R)
                             /\ UNCHANGED <<win, ext, rp, ver, C, iC, Y, I, uc, uic>>
SetRP == \E p \in 0..1 : /\ rp' = p
                         /\ R' = (IF "rp" \in Drop THEN [R EXCEPT !["dayenu"] = Nil] ELSE R)
                         /\ UNCHANGED <<win, ext, sym, ver, C, iC, Y, I, uc, uic>>
SetC == \E m \in 1..2 : /\ uc' = m /\ uic' = 0
                        /\ C' = <<"c", win, ext, ver, m>>
                        /\ iC' = IF "setC-inverse" \in Drop THEN Nil ELSE iC
                        /\ R' = (IF "setC-R" \in Drop THEN [R EXCEPT !["iC"] = Nil] ELSE R)
                        /\ UNCHANGED <<win, ext, sym, rp, ver, Y, I>>
SetIC == \E m \in 1..2 : /\ uic' = m
                         /\ iC' = <<"ic", win, ext, ver, uc, m>>
                         /\ R' = (IF "setiC-R" \in Drop THEN [R EXCEPT !["iC"] = Nil] ELSE R)
                         /\ UNCHANGED <<win, ext, sym, rp, ver, C, Y, I, uc>>
Clear == All /\ UNCHANGED <<win, ext, sym, rp, ver>>
ClearKey == /\ C' = Nil /\ iC' = Nil /\ uc' = 0 /\ uic' = 0
            /\ R' = (IF "clear-R" \in Drop THEN [R EXCEPT !["iC"] = Nil] ELSE R)
            /\ UNCHANGED <<win, ext, sym, rp, ver, Y, I>>
DataOp == ver < MaxVer /\ ver' = ver + 1 /\ AllIf("data") /\ UNCHANGED <<win, ext, sym, rp>>

(* queries store what they compute; R stores what it is made from as well *)
QC == C' = (IF C = Nil THEN StampC ELSE C) /\ UNCHANGED <<win, ext, sym, rp, ver, uc, uic, iC, Y, I, R>>
QIC == /\ iC' = (IF iC = Nil THEN StampIC ELSE iC) /\ C' = (IF C = Nil /\ iC = Nil THEN StampC ELSE C)
       /\ UNCHANGED <<win, ext, sym, rp, ver, uc, uic, Y, I, R>>
QY == Y' = (IF Y = Nil THEN StampY ELSE Y) /\ UNCHANGED <<win, ext, sym, rp, ver, uc, uic, C, iC, I, R>>
QR == \E w \in Wts : /\ R' = (IF R[w] = Nil THEN [R EXCEPT ![w] = StampR(w)] ELSE R)
                     /\ UNCHANGED <<win, ext, sym, rp, ver, uc, uic, C, iC, Y, I>>
QI == I' = (IF I = Nil THEN StampI ELSE I) /\ UNCHANGED <<win, ext, sym, rp, ver, uc, uic, C, iC, Y, R>>

Init == /\ win = 1 /\ ext = 0 /\ sym = TRUE /\ rp = 0 /\ ver = 0 /\ uc = 0 /\ uic = 0
        /\ C = Nil /\ iC = Nil /\ Y = Nil /\ I = Nil /\ R = NoR
Next == SetWin \/ SetExt \/ SetSym \/ SetRP \/ SetC \/ SetIC \/ Clear \/ ClearKey \/ DataOp \/ QC \/ QIC \/ QY \/ QR \/ QI
Spec == Init /\ [][Next]_vars

Fresh == /\ C \in {Nil, StampC} /\ iC \in {Nil, StampIC} /\ Y \in {Nil, StampY} /\ I \in {Nil, StampI}
         /\ \A w \in Wts : R[w] \in {Nil, StampR(w)}
=============================================================================
