------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* What every tree of this library is to its users: a set of versions,     *)
(* each one a finite map from key classes to values.  A key class is a     *)
(* positive number; numbers follow the order of keys.  Versions live in    *)
(* slots.  Versions which may share cells form an alias group (grp): a     *)
(* derived version belongs to the group of its source.  In-place           *)
(* operations need the only live version of a group - this is the          *)
(* "exclusive access" asked for by the documentation.                      *)
(*                                                                         *)
(* A class relation is given as under: class -> the classes it contains    *)
(* (itself included) and over: class -> the sequence of classes containing *)
(* it, the longest (itself) first.                                         *)
(***************************************************************************)
EXTENDS Seqs

CONSTANT Slot
VARIABLE st

Dead == [live |-> FALSE, grp |-> 0, m |-> <<>>]
Empty == [x \in {} |-> 0]

Put(m, c, v)  == [x \in DOMAIN m \cup {c} |-> IF x = c THEN v ELSE m[x]]
Without(m, S) == [x \in DOMAIN m \ S |-> m[x]]

Absent == -1
Exact(m, c) == IF c \in DOMAIN m THEN m[c] ELSE Absent
(* The value of the longest stored class in the sequence given. *)
Nearest(m, overs) ==
  LET hit == {i \in 1..Len(overs) : overs[i] \in DOMAIN m}
  IN  IF hit = {} THEN Absent ELSE m[overs[SetMin(hit)]]

Live(s) == st[s].live
Exclusive(s) == Live(s) /\ \A o \in Slot \ {s} : Live(o) => st[o].grp # st[s].grp
Groups == {st[s].grp : s \in {x \in Slot : Live(x)}}
FreshGrp == IF Groups = {} THEN 1 ELSE CHOOSE g \in 1..(Cardinality(Slot) + 1) : g \notin Groups

StoreInit == st = [s \in Slot |-> Dead]

(* Version in d becomes (content m) derived from the one in s. *)
Derive(s, d, m) == st' = [st EXCEPT ![d] = [live |-> TRUE, grp |-> st[s].grp, m |-> m]]

New(d) == st' = [st EXCEPT ![d] = [live |-> TRUE, grp |-> FreshGrp, m |-> Empty]]
Forget(s) == Live(s) /\ st' = [st EXCEPT ![s] = Dead]

(* Class 0 stands for a key which isn't valid: nothing happens. *)
Insert(s, d, c, v) == Live(s) /\ Derive(s, d, IF c = 0 THEN st[s].m ELSE Put(st[s].m, c, v))
Inplace(s, c, v)   == Exclusive(s) /\ Derive(s, s, IF c = 0 THEN st[s].m ELSE Put(st[s].m, c, v))
Delete(s, d, S, ok) ==
  /\ Live(s)
  /\ ok = (S \cap DOMAIN st[s].m # {})
  /\ Derive(s, d, Without(st[s].m, S))
(* A part of a version, classes of S, taken as a version of its own. *)
Focus(s, d, S) == Live(s) /\ Derive(s, d, [x \in S \cap DOMAIN st[s].m |-> st[s].m[x]])
(* f: new values of some strict descendants of class c. *)
Update(s, c, inside, called, f) ==
  /\ Exclusive(s) \/ (Live(s) /\ DOMAIN st[s].m = {})
  /\ called = IF c \in DOMAIN st[s].m THEN (inside \ {c}) \cap DOMAIN st[s].m ELSE {}
  /\ DOMAIN f \subseteq called
  /\ Derive(s, s, [x \in DOMAIN st[s].m |-> IF x \in DOMAIN f THEN f[x] ELSE st[s].m[x]])

Observe(s) == Live(s) /\ UNCHANGED st

-----------------------------------------------------------------------------
(* Nothing but the destination of a step ever changes, and alias groups     *)
(* are what keeps in-place steps away from everyone else.                   *)
OnlyTarget == [][\E d \in Slot : \A s \in Slot \ {d} : st'[s] = st[s]]_st
NoSharedInplace ==
  [][\A s \in Slot : (Live(s) /\ st'[s].live /\ st'[s].grp = st[s].grp /\ st'[s] # st[s]) =>
       \A o \in Slot \ {s} : st'[o] = st[o]]_st
=============================================================================
