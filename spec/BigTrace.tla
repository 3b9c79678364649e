------------------------------ MODULE BigTrace ------------------------------
(***************************************************************************)
(* Trace validation of histories with thousands of entries.  It says the   *)
(* same as Store and StoreTrace do but about trees of a size where those   *)
(* would take hours: keys of the trace come sorted and are known by their  *)
(* ranks, a content is a sequence (0 stands for no entry), operations come *)
(* in batches and everything takes (almost) linear time.                   *)
(*                                                                         *)
(* Sizes matter because the code does: buffers, counters and recursion     *)
(* which are fine for ten entries don't have to be for ten thousand.       *)
(***************************************************************************)
EXTENDS Keys, SequencesExt, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, tab, st
tv == <<t, l, tab, st>>

TR == Traces[t]
Slots == 1..3
(* Functions are lazy in TLC; this makes a tuple of one. *)
Tuple(f) == f \o <<>>
None == <<>>    \* there is no version in the slot

-----------------------------------------------------------------------------
(* Meaning of keys.  The order of Keys is checked and then relied upon.     *)
Forms == Tuple([i \in 1..Len(TR.keys) |-> Canon(TR.kind, TR.cmp, TR.keys[i])])
Sorted(fs) == \A i \in 1..(Len(fs) - 1) : Cmp(TR.kind, TR.cmp, fs[i], fs[i + 1]) < 0

RECURSIVE Search(_, _, _, _)
Search(fs, f, a, b) ==   \* rank of f in a..b or 0
  IF a > b THEN 0
  ELSE LET x == (a + b) \div 2
           c == Cmp(TR.kind, TR.cmp, f, fs[x])
       IN  IF c = 0 THEN x ELSE IF c < 0 THEN Search(fs, f, a, x - 1) ELSE Search(fs, f, x + 1, b)

(***************************************************************************)
(* The trace tells the closest key which contains the key and, as keys     *)
(* contained in a key follow it in this order, the last one of them.  Both  *)
(* are verified here: the closest one is on the way up from the            *)
(* predecessor.                                                             *)
(***************************************************************************)
RECURSIVE Climb(_, _, _, _)
Climb(fs, up, p, c) == IF p = 0 THEN 0 ELSE IF Pre(fs[p], fs[c]) THEN p ELSE Climb(fs, up, up[p], c)
LinksOK(fs) ==
  LET n == Len(fs) IN
  IF ~Covers(TR.kind) THEN \A c \in 1..n : TR.up[c] = 0 /\ TR.hi[c] = c
  ELSE \A c \in 1..n :
         /\ TR.up[c] = Climb(fs, TR.up, c - 1, c)
         /\ TR.hi[c] \in c..n /\ Pre(fs[c], fs[TR.hi[c]])
         /\ TR.hi[c] = n \/ ~Pre(fs[c], fs[TR.hi[c] + 1])

MkTab == LET fs == Forms
             of == Tuple([i \in 1..Len(TR.outs) |-> Canon(TR.kind, TR.cmp, TR.outs[i])])
         IN  [forms |-> fs, up |-> TR.up, hi |-> TR.hi,
              out |-> Tuple([i \in 1..Len(of) |-> IF of[i] = BadOf(TR.kind) THEN 0 ELSE Search(fs, of[i], 1, Len(fs))]),
              of |-> of,
              listed |-> Tuple([i \in 1..Len(of) |-> Listed(TR.kind, TR.outs[i], of[i])]),
              fine |-> Sorted(fs) /\ LinksOK(fs)]

N == Len(tab.forms)
Nothing == Tuple([c \in 1..N |-> 0])
Count(m) == Cardinality({c \in 1..N : m[c] > 0})

-----------------------------------------------------------------------------
(***************************************************************************)
(* Batches of operations: x[c] is the value stored for a key or 0 if the    *)
(* key has no part in the batch, o[c] is when in the batch it was deleted   *)
(* and r[c] is the answer.                                                  *)
(***************************************************************************)
Put(m, x) == Tuple([c \in 1..N |-> IF x[c] > 0 THEN x[c] ELSE m[c]])

Never == 1000000
RECURSIVE Gone(_, _)    \* when c is deleted together with what contains it
Gone(o, c) == IF c = 0 THEN Never ELSE Min2(IF o[c] > 0 THEN o[c] ELSE Never, Gone(o, tab.up[c]))
Times(o, sweep) == Tuple([c \in 1..N |-> IF sweep THEN Gone(o, c) ELSE IF o[c] > 0 THEN o[c] ELSE Never])
CutOK(m, o, r, sweep) ==
  LET gone == Times(o, sweep) IN
  \A c \in 1..N : o[c] > 0 =>
    (r[c] = 1) = (\E x \in c..(IF sweep THEN tab.hi[c] ELSE c) : m[x] > 0 /\ gone[x] >= o[c])
Cut(m, o, sweep) == LET gone == Times(o, sweep) IN Tuple([c \in 1..N |-> IF gone[c] < Never THEN 0 ELSE m[c]])

RECURSIVE Find(_, _)
Find(m, k) == IF k = 0 THEN -1 ELSE IF m[k] > 0 THEN m[k] ELSE Find(m, tab.up[k])

ListingOK(m, p) ==
  /\ Len(p) = Count(m)
  /\ \A i \in 1..Len(p) :
       LET c == tab.out[p[i][1]]
       IN  /\ c > 0 /\ m[c] > 0 /\ m[c] = p[i][2]
           /\ tab.listed[p[i][1]]
           /\ i < Len(p) => c < tab.out[p[i + 1][1]]

(***************************************************************************)
(* Nodes [out, data?, value, left, right] of a dump, 0 for no node.  See    *)
(* DotOK and TrieOK of StoreTrace.                                          *)
(***************************************************************************)
RECURSIVE Reading(_, _, _, _)
Reading(ns, i, pre, fuel) ==
  IF i = 0 THEN <<>>
  ELSE IF fuel = 0 THEN <<0>>
  ELSE IF pre THEN <<i>> \o Reading(ns, ns[i][4], pre, fuel - 1) \o Reading(ns, ns[i][5], pre, fuel - 1)
  ELSE Reading(ns, ns[i][4], pre, fuel - 1) \o <<i>> \o Reading(ns, ns[i][5], pre, fuel - 1)

DotOK(m, ns) ==
  LET n == Len(ns)
      radix == TR.kind \in {"radix32", "radix64"}
      links == {x \in (1..n) \X {4, 5} : ns[x[1]][x[2]] > 0}
  IN  /\ n > 0 => Cardinality(links) = n - 1 /\ {ns[x[1]][x[2]] : x \in links} = 2..n
      /\ LET rd  == IF n = 0 THEN <<>> ELSE Reading(ns, 1, radix, 120)
             ent == SelectSeq(rd, LAMBDA i : ns[i][2] = 1)
         IN  /\ Len(rd) = n
             /\ Len(ent) = Count(m)
             /\ \A i \in 1..Len(ent) :
                  LET c == tab.out[ns[ent[i]][1]] IN
                    /\ c > 0 /\ m[c] > 0
                    /\ m[c] = ns[ent[i]][3]
                    /\ i < Len(ent) => c < tab.out[ns[ent[i + 1]][1]]
      /\ radix =>
           LET F(i) == tab.of[ns[i][1]]
               C(i, b) == LET x == ns[i][4 + b] IN IF x > 0 /\ ns[x][1] > 0 THEN x ELSE 0
           IN  \A i \in 1..n :
                 IF ns[i][1] = 0 THEN ns[i][2] = 0 /\ C(i, 0) = 0 /\ C(i, 1) = 0
                 ELSE /\ F(i) # Bad
                      /\ ns[i][2] = 1 \/ (C(i, 0) > 0 /\ C(i, 1) > 0)
                      /\ \A b \in {0, 1} :
                           C(i, b) > 0 =>
                             LET c == F(C(i, b)) IN Len(c) > Len(F(i)) /\ Pre(F(i), c) /\ c[Len(F(i)) + 1] = b

(* Callbacks [out, old, new or 0]: every strict descendant of the key once, none if it isn't there. *)
UpdateOK(m, k, c) ==
  LET n == Len(c)
      called == {tab.out[c[i][1]] : i \in 1..n}
  IN  /\ Cardinality(called) = n
      /\ called = IF m[k] > 0 THEN {x \in (k + 1)..tab.hi[k] : m[x] > 0} ELSE {}
      /\ \A i \in 1..n : m[tab.out[c[i][1]]] = c[i][2] /\ tab.listed[c[i][1]]
Updated(m, c) ==
  LET val == [i \in 1..Len(c) |-> <<tab.out[c[i][1]], c[i][3]>>]
      f == {p \in ToSet(val) : p[2] > 0}
      dom == {p[1] : p \in f}
      g == [x \in dom |-> (CHOOSE p \in f : p[1] = x)[2]]
  IN  Tuple([x \in 1..N |-> IF x \in dom THEN g[x] ELSE m[x]])

-----------------------------------------------------------------------------
Here(s) == st[s] # None
(* As a part of an action a quantifier costs TLC a stack frame for every element; as a value it doesn't. *)
Holds(x) == x = TRUE
Explained(e) ==
  CASE e.e = "new"  -> st' = [st EXCEPT ![e.d] = Nothing]
    [] e.e = "drop" -> st' = [st EXCEPT ![e.s] = None]
    [] e.e = "inp"  -> /\ Here(e.s) /\ \A x \in Slots \ {e.s} : st[x] = None
                       /\ st' = [st EXCEPT ![e.s] = Put(st[e.s], e.x)]
    [] e.e = "ins"  -> Here(e.s) /\ st' = [st EXCEPT ![e.d] = Put(st[e.s], e.x)]
    [] e.e \in {"del", "dsub"} ->
         /\ Here(e.s)
         /\ LET sweep == e.e = "dsub" \/ Sweeps(TR.kind)
            IN  Holds(CutOK(st[e.s], e.o, e.r, sweep)) /\ st' = [st EXCEPT ![e.d] = Cut(st[e.s], e.o, sweep)]
    [] e.e = "look" -> /\ Here(e.s) /\ UNCHANGED st
                       /\ Holds(\A i \in 1..Len(e.q) : e.q[i][2] = Find(st[e.s], e.q[i][1]))
    [] e.e = "lookx" -> /\ Here(e.s) /\ UNCHANGED st
                        /\ Holds(\A i \in 1..Len(e.q) : LET v == st[e.s][e.q[i][1]] IN e.q[i][2] = (IF v > 0 THEN v ELSE -1))
    [] e.e = "enum" -> Here(e.s) /\ UNCHANGED st /\ Holds(ListingOK(st[e.s], e.p))
    [] e.e = "empty" -> Here(e.s) /\ UNCHANGED st /\ e.r = (Count(st[e.s]) = 0)
    [] e.e = "upd"  -> /\ Here(e.s) /\ \A x \in Slots \ {e.s} : st[x] = None
                       /\ Holds(UpdateOK(st[e.s], e.k, e.c))
                       /\ st' = [st EXCEPT ![e.s] = Updated(st[e.s], e.c)]
    [] e.e = "dot"  -> Here(e.s) /\ UNCHANGED st /\ Holds(DotOK(st[e.s], e.n))
    [] OTHER -> FALSE

Init == t \in 1..Len(Traces) /\ l = 0 /\ tab = None /\ st = [s \in Slots |-> None]
Load == tab = None /\ tab' = MkTab /\ UNCHANGED <<t, l, st>>
Explain == /\ tab # None /\ Assert(tab.fine, "keys of the trace are not in order")
           /\ l < Len(TR.ev) /\ Explained(TR.ev[l + 1]) /\ l' = l + 1 /\ UNCHANGED <<t, tab>>
Done == tab # None /\ l = Len(TR.ev) /\ UNCHANGED tv
Spec == Init /\ [][Load \/ Explain \/ Done]_tv

View == <<t, l, tab = None>>
Alias == [t |-> t, l |-> l]
=============================================================================
