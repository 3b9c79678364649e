------------------------------ MODULE Branches ------------------------------
(***************************************************************************)
(* Every short branching history of versions.  A history starts with a     *)
(* version of some content (SEEDS); each of its DEPTH steps takes any live  *)
(* version, however old, and either derives one more from it or - as its    *)
(* only owner from now on, all others are forgotten - works in place.  The  *)
(* meaning of steps is the one of Store.  Classes are SHAPE of               *)
(*   "flat"    independent keys,                                             *)
(*   "tree"    prefixes: deletion takes everything contained,                *)
(*   "domain"  names: deletion of a domain alone (del) or with all below     *)
(*             it (dsub).                                                    *)
(* Complete histories are printed (with what is listed and found in the     *)
(* version made by every step) and carried out on the real trees, where all *)
(* live versions are looked at after every step.  Steps are about classes    *)
(* of TOUCH only, so that seeds may be big.                                 *)
(***************************************************************************)
EXTENDS Store, TLC, Json

CONSTANTS SHAPE, NCLS, TOUCH, SEEDS, DEPTH, UPD, EMIT

VARIABLES made,     \* number of versions made, the first one included
          seed,
          script    \* <<operation, source, class, flag, content, lookups>> for every step

vars == <<st, made, seed, script>>

(* Paths of classes, in order: a class contains those its path is a prefix of. *)
Paths ==
  IF SHAPE = "flat" THEN [i \in 1..NCLS |-> <<i>>]
  ELSE <<<<>>, <<1>>, <<1, 1>>, <<1, 2>>, <<2>>, <<2, 1>>, <<2, 2>>>>
Cls == 1..Len(Paths)
Below == [c \in Cls |-> {x \in Cls : Pre(Paths[c], Paths[x])}]
Above == [c \in Cls |-> SortSet({x \in Cls : Pre(Paths[x], Paths[c])}, LAMBDA a, b : Len(Paths[a]) > Len(Paths[b]))]

Ops == {"ins", "inp", "del"} \cup (IF SHAPE = "domain" THEN {"dsub"} ELSE {}) \cup (IF UPD THEN {"upd"} ELSE {})
Gone(op, c) == IF op = "dsub" \/ SHAPE = "tree" THEN Below[c] ELSE {c}

(* Contents as a sequence of <<class, value>>; seeds have values 50 + class, steps their number. *)
Listed(m) == LET L == SortSet(DOMAIN m, <) IN [i \in 1..Len(L) |-> <<L[i], m[L[i]]>>]
Looked(m) == [c \in Cls |-> IF SHAPE = "flat" THEN Exact(m, c) ELSE Nearest(m, Above[c])] \o <<>>
Tell(op, s, c, ok) == script' = Append(script, <<op, s, c, ok, Listed(st'[IF op \in {"inp", "upd"} THEN s ELSE made + 1].m),
                                                 Looked(st'[IF op \in {"inp", "upd"} THEN s ELSE made + 1].m)>>)

Alone(s) == [o \in Slot |-> IF o = s THEN st[s] ELSE Dead]

Init ==
  /\ seed \in SEEDS
  /\ st = [s \in Slot |-> IF s = 1 THEN [live |-> TRUE, grp |-> 1, m |-> [c \in seed |-> 50 + c]] ELSE Dead]
  /\ made = 1
  /\ script = <<>>

Derived(op, s, c) ==
  /\ made < Cardinality(Slot)
  /\ LET v == Len(script) + 1
         S == Gone(op, c)
     IN  \/ op = "ins" /\ Insert(s, made + 1, c, v) /\ Tell(op, s, c, TRUE)
         \/ op \in {"del", "dsub"} /\ \E ok \in BOOLEAN : Delete(s, made + 1, S, ok) /\ Tell(op, s, c, ok)
  /\ made' = made + 1

(* (Inplace and Update of Store after everybody else is forgotten) *)
Owned(op, s, c) ==
  /\ LET v == Len(script) + 1
         m == st[s].m
         u == IF c \in DOMAIN m THEN (Below[c] \ {c}) \cap DOMAIN m ELSE {}
     IN  st' = [Alone(s) EXCEPT ![s].m = IF op = "inp" THEN Put(m, c, v) ELSE [x \in DOMAIN m |-> IF x \in u THEN v ELSE m[x]]]
  /\ Tell(op, s, c, TRUE)
  /\ UNCHANGED made

Next ==
  /\ Len(script) < DEPTH
  /\ \E s \in Slot, c \in TOUCH, op \in Ops :
       /\ Live(s)
       /\ IF op \in {"inp", "upd"} THEN Owned(op, s, c) ELSE Derived(op, s, c)
  /\ UNCHANGED seed

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What a derived step leaves alone, and what a step which works in place may touch. *)
OldVersionsStay ==
  [][\A s \in Slot : (Live(s) /\ st'[s].live /\ st'[s] # st[s]) =>
       /\ Last(script')[1] \in {"inp", "upd"} /\ Last(script')[2] = s
       /\ \A o \in Slot \ {s} : ~st'[o].live]_vars

(* All versions of a history can be explained by what was written: a value is of the seed or of a step which put it. *)
Explained ==
  \A s \in Slot : Live(s) => \A c \in DOMAIN st[s].m :
    LET v == st[s].m[c]
    IN  IF v > 50 THEN v = 50 + c /\ c \in seed
        ELSE LET w == script[v] IN \/ w[1] \in {"ins", "inp"} /\ w[3] = c
                                   \/ w[1] = "upd" /\ c \in Below[w[3]] \ {w[3]}

EmitHistory == (EMIT /\ Len(script) = DEPTH) => PrintT("@h" \o ToJson(<<SetToSeq(seed), script>>))
=============================================================================
