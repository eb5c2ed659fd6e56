---------------------------- MODULE Container ----------------------------
(* A PSpecContainer file as a durable map (group, name) -> version of a spectrum, accessed through three kinds
   of handle on the same file:  K, a held-open handle (mode r or rw, may be closed and re-opened);  T, a
   read-write handle opened per operation;  R, a read-only handle opened per operation.

   Every action carries the outcome the user must see (ok / err, and the value returned by a read), so that the
   state graph of this specification can be replayed, transition by transition, on the real class.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Groups,      \* ordinary group names
          Names,       \* spectrum names
          Vers,        \* versions of a valid spectrum (positive integers)
          Emit         \* print every transition

VARIABLES exists,      \* the file exists
          hold,        \* state of handle K: "none", "r", "rw"
          store,       \* [Groups -> [Names -> Vers \cup {0}]]
          act          \* last action with its outcome (history variable, outside the VIEW)

vars == <<exists, hold, store, act>>
view == <<exists, hold, store>>

Reserved == "header"   \* name of the group with the container's own metadata
Bad == -1              \* a UVPSpec that fails its own consistency check
Junk == -2             \* not a UVPSpec at all
Payloads == Vers \cup {Bad, Junk}
Handles == {"K", "T", "R"}

AllG == Groups \cup {Reserved}
Present(g) == g \in Groups /\ \E n \in Names : store[g][n] # 0
Listing(g) == {n \in Names : store[g][n] # 0}
ListedGroups == {g \in Groups : Present(g)}
Empty == [g \in Groups |-> [n \in Names |-> 0]]

(* Can handle h be opened for an operation, and may it write?  Two handles in one process share the file; a
   writer cannot be opened while the file is held read-only.                                                  *)
Usable(h) == CASE h = "K" -> hold # "none"
               [] h = "T" -> hold # "r"
               [] h = "R" -> exists
Writes(h) == h = "T" \/ (h = "K" /\ hold = "rw")
Creates(h) == h = "T"

Init == /\ exists = FALSE /\ hold = "none" /\ store = Empty /\ act = [op |-> "init"]

(* ------------------------------------------------------------------ stores *)
CanStore(st, g, n, p, ow) == g \in Groups /\ p \in Vers /\ (st[g][n] = 0 \/ ow)
Put(st, g, n, p) == [st EXCEPT ![g][n] = p]

Touch(h) == exists' = (exists \/ (Creates(h) /\ Usable(h)))

Set(h, g, n, p, ow) ==
  /\ h = "K" => hold # "none"
  /\ LET ok == Usable(h) /\ Writes(h) /\ CanStore(store, g, n, p, ow)
     IN /\ store' = IF ok THEN Put(store, g, n, p) ELSE store
        /\ act' = [op |-> "set", h |-> h, g |-> g, n |-> n, p |-> p, ow |-> ow, ok |-> ok]
  /\ Touch(h)
  /\ UNCHANGED hold

(* A list is stored element by element; the first element that is refused ends it. *)
RECURSIVE PutAll(_, _, _, _)
PutAll(st, g, items, ow) ==
  IF items = <<>> THEN [st |-> st, ok |-> TRUE]
  ELSE LET it == Head(items)
       IN IF CanStore(st, g, it.n, it.p, ow) THEN PutAll(Put(st, g, it.n, it.p), g, Tail(items), ow)
          ELSE [st |-> st, ok |-> FALSE]

SetList(h, g, items, ow) ==
  /\ h = "K" => hold # "none"
  /\ LET r == IF Usable(h) /\ Writes(h) THEN PutAll(store, g, items, ow) ELSE [st |-> store, ok |-> FALSE]
     IN /\ store' = r.st
        /\ act' = [op |-> "setlist", h |-> h, g |-> g, items |-> items, ow |-> ow, ok |-> r.ok]
  /\ Touch(h)
  /\ UNCHANGED hold

(* names without matching spectra, several groups at once: refused outright *)
BadCall(h, kind) ==
  /\ h = "K" => hold # "none"
  /\ act' = [op |-> "badcall", h |-> h, kind |-> kind, ok |-> FALSE]
  /\ Touch(h)
  /\ UNCHANGED <<hold, store>>

(* ------------------------------------------------------------------ reads *)
Read(h, ok, a) ==
  /\ h = "K" => hold # "none"
  /\ act' = IF ok /\ Usable(h) THEN a @@ [h |-> h, ok |-> TRUE] ELSE [op |-> a.op, h |-> h, ok |-> FALSE] @@ a
  /\ Touch(h)
  /\ UNCHANGED <<hold, store>>

Get(h, g, n, meta) == Read(h, g \in Groups /\ store[g][n] # 0,
                     [op |-> "get", g |-> g, n |-> n, meta |-> meta, v |-> IF g \in Groups THEN store[g][n] ELSE 0])
GetAll(h, g) == Read(h, Present(g), [op |-> "getall", g |-> g,
                     v |-> {<<n, store[g][n]>> : n \in Listing(g)}])
Spectra(h, g) == Read(h, Present(g), [op |-> "spectra", g |-> g, v |-> Listing(g)])
GroupList(h) == Read(h, TRUE, [op |-> "groups", v |-> ListedGroups])
Tree(h) == Read(h, TRUE, [op |-> "tree", v |-> {<<g, n>> \in Groups \X Names : store[g][n] # 0}])
Save(h) == Read(h, TRUE, [op |-> "save"])

(* ------------------------------------------------------------------ the held handle *)
Open(m) ==
  /\ hold = "none"
  /\ LET ok == m = "rw" \/ exists
     IN /\ hold' = IF ok THEN m ELSE "none"
        /\ act' = [op |-> "open", m |-> m, ok |-> ok]
  /\ exists' = (exists \/ m = "rw")
  /\ UNCHANGED store

Close == /\ hold # "none" /\ hold' = "none" /\ act' = [op |-> "close", ok |-> TRUE]
         /\ UNCHANGED <<exists, store>>

Lists == {<<[n |-> a, p |-> p], [n |-> b, p |-> q]>> : a, b \in Names, p, q \in {1, 2, Bad, Junk} \cap Payloads}

Next ==
  \/ \E h \in Handles, g \in AllG, n \in Names, p \in Payloads, ow \in BOOLEAN : Set(h, g, n, p, ow)
  \/ \E h \in {"K", "T"}, g \in Groups, it \in Lists, ow \in BOOLEAN : SetList(h, g, it, ow)
  \/ \E h \in {"K", "T"}, kind \in {"len", "nolist", "multigroup"} : BadCall(h, kind)
  \/ \E h \in Handles, g \in Groups, n \in Names, meta \in BOOLEAN : Get(h, g, n, meta)
  \/ \E h \in Handles, g \in Groups : GetAll(h, g) \/ Spectra(h, g)
  \/ \E h \in Handles : GroupList(h) \/ Tree(h) \/ Save(h)
  \/ \E m \in {"r", "rw"} : Open(m)
  \/ Close

Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ properties of the design *)
TypeOK == /\ exists \in BOOLEAN /\ hold \in {"none", "r", "rw"}
          /\ store \in [Groups -> [Names -> Vers \cup {0}]]
NoFileNoContent == ~exists => store = Empty
HeldImpliesExists == hold # "none" => exists
(* a refused action leaves the content alone - except for the already stored prefix of a list *)
RefusedKeeps == [][(~act'.ok /\ act'.op # "setlist") => store' = store]_vars
(* reads never change the content *)
ReadsKeep == [][act'.op \notin {"set", "setlist"} => store' = store]_vars
(* only the addressed entries change, and nothing stored ever disappears *)
OnlyAddressed == [][\A g \in Groups, n \in Names : store'[g][n] # store[g][n] =>
                      /\ act'.g = g
                      /\ store'[g][n] \in Vers
                      /\ (store[g][n] # 0 => act'.ow)]_vars
(* what is read is what is stored *)
ReadsTruth == [][(act'.op = "get" /\ act'.ok) => act'.v = store[act'.g][act'.n]]_vars

EmitT == Emit => PrintT("@@" \o ToJson([f |-> [e |-> exists, h |-> hold, s |-> store],
                                        a |-> act',
                                        t |-> [e |-> exists', h |-> hold', s |-> store']]))
=============================================================================
