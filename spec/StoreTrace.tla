----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Trace validation: histories recorded from the real trees (file named by *)
(* environment variable TRACE, made by /verif/harness) have to be          *)
(* behaviours of Store where every answer is the one Store allows.         *)
(*                                                                         *)
(* The file holds many traces; an initial state picks one of them.  A      *)
(* state where the next event can't be explained has no successor, which   *)
(* TLC reports as a deadlock together with t and l.                        *)
(***************************************************************************)
EXTENDS Keys, Store, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES t,    \* trace
          l,    \* events explained so far
          tab,  \* meaning of keys of the trace
          es    \* enumerations in progress

tv == <<st, t, l, tab, es>>

(***************************************************************************)
(* An enumeration shows the content its version had when it was started,  *)
(* whatever happens meanwhile: m is that content, last the class of what   *)
(* has been delivered last.                                                *)
(***************************************************************************)
Stream == 1..6
NoStream == [on |-> FALSE, m |-> Empty, last |-> 0]

TR == Traces[t]

(***************************************************************************)
(* Keys of the trace (used ones and then the listed ones) with their       *)
(* canonical forms, numbered by rank.  cls: key -> class, 0 if not valid.  *)
(***************************************************************************)
MkTab(tr) ==
  LET all   == tr.keys \o tr.outs
      n     == Len(all)
      can   == [i \in 1..n |-> Canon(tr.kind, tr.cmp, all[i])]
      dist  == {can[i] : i \in 1..n} \ {BadOf(tr.kind)}
      forms == SortSeq(SetToSeq(dist), LAMBDA x, y : Cmp(tr.kind, tr.cmp, x, y) < 0)
      nc    == Len(forms)
      rank  == [f \in dist |-> CHOOSE i \in 1..nc : forms[i] = f]
      cls   == [i \in 1..n |-> IF can[i] = BadOf(tr.kind) THEN 0 ELSE rank[can[i]]]
      cov   == Covers(tr.kind)
      over  == [c \in 1..nc |->
                  IF ~cov THEN <<c>>
                  ELSE SortSet({x \in 1..c : Pre(forms[x], forms[c])}, LAMBDA a, b : a > b)]
      under == [c \in 1..nc |->
                  IF ~cov THEN {c} ELSE {x \in c..nc : Pre(forms[c], forms[x])}]
  IN  [nk |-> Len(tr.keys), forms |-> forms, cls |-> cls, over |-> over, under |-> under,
       listed |-> [i \in 1..Len(tr.outs) |-> Listed(tr.kind, tr.outs[i], can[Len(tr.keys) + i])]]

KeyClass(k) == tab.cls[k]
OutClass(o) == tab.cls[tab.nk + o]
UnderOf(c) == IF c = 0 THEN {} ELSE tab.under[c]
JustIt(c)  == IF c = 0 THEN {} ELSE {c}

Find(m, c) == IF c = 0 THEN Absent ELSE Nearest(m, tab.over[c])
FindExact(m, c) == IF c = 0 THEN Absent ELSE Exact(m, c)

(* A listing shows every entry once, in order, in proper form. *)
ListingOK(m, p) ==
  /\ Len(p) = Cardinality(DOMAIN m)
  /\ \A i \in 1..Len(p) :
       LET c == OutClass(p[i][1])
       IN  /\ c \in DOMAIN m
           /\ m[c] = p[i][2]
           /\ tab.listed[p[i][1]]
           /\ i < Len(p) => c < OutClass(p[i + 1][1])

(* Nodes [out, leaf, value, left, right] of a radix tree, the root first:   *)
(* path-compressed binary trie whose nodes with data are the entries.  In   *)
(* dumps there are also nil nodes (out is 0) at places without children.    *)
TrieOK(m, ns) ==
  LET F(i) == tab.forms[OutClass(ns[i][1])]
      R == {i \in 1..Len(ns) : ns[i][1] # 0}
      C(i, b) == IF ns[i][4 + b] > 0 /\ ns[i][4 + b] \in R THEN ns[i][4 + b] ELSE 0
      Leaves == {i \in R : ns[i][2] = 1}
  IN  /\ Cardinality(Leaves) = Cardinality(DOMAIN m)
      /\ R = {} \/ Cardinality(R) <= 2 * Cardinality(DOMAIN m) - 1
      /\ \A i \in R : OutClass(ns[i][1]) # 0
      /\ \A i \in R :
           /\ i \in Leaves => OutClass(ns[i][1]) \in DOMAIN m /\ m[OutClass(ns[i][1])] = ns[i][3]
           /\ i \notin Leaves => ns[i][3] = 0 /\ C(i, 0) > 0 /\ C(i, 1) > 0
           /\ \A b \in {0, 1} :
                C(i, b) > 0 =>
                  LET c == F(C(i, b)) IN
                    Len(c) > Len(F(i)) /\ Pre(F(i), c) /\ c[Len(F(i)) + 1] = b

(***************************************************************************)
(* A dump is a single tree: the first node is the root and every other one *)
(* has exactly one parent.  Entries read in order (before its children in  *)
(* radix trees) are the content.                                           *)
(***************************************************************************)
RECURSIVE Reading(_, _, _)
Reading(ns, i, pre) ==
  IF i = 0 THEN <<>>
  ELSE IF pre THEN <<i>> \o Reading(ns, ns[i][4], pre) \o Reading(ns, ns[i][5], pre)
  ELSE Reading(ns, ns[i][4], pre) \o <<i>> \o Reading(ns, ns[i][5], pre)

DotOK(m, ns) ==
  LET N == Len(ns)
      Parents(i) == Cardinality({<<p, b>> \in (1..N) \X {4, 5} : ns[p][b] = i})
      radix == TR.kind \in {"radix32", "radix64"}
  IN  /\ N > 0 => Parents(1) = 0
      /\ \A i \in 2..N : Parents(i) = 1
      /\ LET rd  == IF N = 0 THEN <<>> ELSE Reading(ns, 1, radix)
             ent == SelectSeq(rd, LAMBDA i : ns[i][2] = 1)
         IN  /\ Len(rd) = N
             /\ Len(ent) = Cardinality(DOMAIN m)
             /\ \A i \in 1..Len(ent) :
                  LET c == OutClass(ns[ent[i]][1]) IN
                    /\ c \in DOMAIN m
                    /\ m[c] = ns[ent[i]][3]
                    /\ i < Len(ent) => c < OutClass(ns[ent[i + 1]][1])
      /\ radix => TrieOK(m, ns)

(* Callbacks [out, old, new or 0] of UpdateDescendants. *)
UpdateStep(e) ==
  LET s == e.s
      c == KeyClass(e.k)
      n == Len(e.c)
      cc == [i \in 1..n |-> OutClass(e.c[i][1])]
      called == {cc[i] : i \in 1..n}
      changed == {i \in 1..n : e.c[i][3] > 0}
      f == [x \in {cc[i] : i \in changed} |-> e.c[CHOOSE i \in changed : cc[i] = x][3]]
      m == st[s].m
  IN  /\ Cardinality(called) = n
      /\ \A i \in 1..n : cc[i] \in DOMAIN m /\ m[cc[i]] = e.c[i][2] /\ tab.listed[e.c[i][1]]
      /\ IF c = 0 THEN n = 0 /\ UNCHANGED st
         ELSE Update(s, c, UnderOf(c), called, f)

(* A node found by its key, or any node on the way down: o is what it says of itself. *)
FocusStep(e) ==
  IF e.k > 0 THEN LET c == KeyClass(e.k) IN Focus(e.s, e.d, IF c \in DOMAIN st[e.s].m THEN UnderOf(c) ELSE {})
  ELSE IF e.o = 0 THEN DOMAIN st[e.s].m = {} /\ Focus(e.s, e.d, {})
  ELSE OutClass(e.o) # 0 /\ UnderOf(OutClass(e.o)) \cap DOMAIN st[e.s].m # {} /\ Focus(e.s, e.d, UnderOf(OutClass(e.o)))

(* Events of enumerations. *)
OpenStep(e) == Observe(e.s) /\ es' = [es EXCEPT ![e.i] = [on |-> TRUE, m |-> st[e.s].m, last |-> 0]]
Left(i) == {c \in DOMAIN es[i].m : c > es[i].last}
NextStep(e) ==
  LET c == OutClass(e.p[1])
      left == Left(e.i)
  IN  /\ es[e.i].on
      /\ c \in left
      /\ \A x \in left : c <= x
      /\ es[e.i].m[c] = e.p[2]
      /\ tab.listed[e.p[1]]
      /\ es' = [es EXCEPT ![e.i].last = c]
      /\ UNCHANGED st
OverStep(e) == es[e.i].on /\ Left(e.i) = {} /\ UNCHANGED <<st, es>>
(* Once everything has been drained no goroutine is left behind. *)
IdleStep(e) == e.x = 0 /\ (\A i \in Stream : es[i].on => Left(i) = {}) /\ UNCHANGED <<st, es>>

(* Values which live versions hold: nothing else stays in memory. *)
Held == UNION {{st[s].m[c] : c \in DOMAIN st[s].m} : s \in {x \in Slot : Live(x)}}

(* As a part of an action a quantifier costs TLC a stack frame for every element; as a value it doesn't. *)
Holds(x) == x = TRUE

(* How an event has to be explained. *)
StoreStep(e) ==
  CASE e.e \in {"new", "nil"} -> New(e.d)
    [] e.e = "drop" -> Forget(e.s)
    [] e.e = "ins"  -> Insert(e.s, e.d, KeyClass(e.k), e.v)
    [] e.e = "inp"  -> Inplace(e.s, KeyClass(e.k), e.v)
    [] e.e = "del"  -> Delete(e.s, e.d,
                         IF Sweeps(TR.kind) THEN UnderOf(KeyClass(e.k)) ELSE JustIt(KeyClass(e.k)), e.r)
    [] e.e = "dsub" -> Delete(e.s, e.d, UnderOf(KeyClass(e.k)), e.r)
    [] e.e = "upd"  -> UpdateStep(e)
    [] e.e = "foc"  -> FocusStep(e)
    [] e.e = "look" -> Observe(e.s) /\ Holds(\A i \in 1..Len(e.q) : e.q[i][2] = Find(st[e.s].m, KeyClass(e.q[i][1])))
    [] e.e = "lookx" -> Observe(e.s) /\ Holds(\A i \in 1..Len(e.q) : e.q[i][2] = FindExact(st[e.s].m, KeyClass(e.q[i][1])))
    [] e.e = "enum" -> Observe(e.s) /\ Holds(ListingOK(st[e.s].m, e.p))
    [] e.e = "many" -> Observe(e.s) /\ Holds(\A i \in 1..Len(e.ps) : ListingOK(st[e.s].m, e.ps[i]))
    [] e.e = "empty" -> Observe(e.s) /\ e.r = (DOMAIN st[e.s].m = {})
    [] e.e = "kept" -> Holds(Held = {e.v[i] : i \in 1..Len(e.v)}) /\ UNCHANGED st
    [] e.e = "dot"  -> Observe(e.s) /\ Holds(DotOK(st[e.s].m, e.n))
    [] e.e = "tri"  -> Observe(e.s) /\ Holds(TrieOK(st[e.s].m, e.n))
    [] OTHER -> FALSE   \* "bad": a panic or no answer

Step(e) ==
  CASE e.e = "open" -> OpenStep(e)
    [] e.e = "next" -> NextStep(e)
    [] e.e = "over" -> OverStep(e)
    [] e.e = "idle" -> IdleStep(e)
    [] OTHER -> StoreStep(e) /\ UNCHANGED es

-----------------------------------------------------------------------------
TraceInit == StoreInit /\ t \in 1..Len(Traces) /\ l = 0 /\ tab = <<>>
             /\ es = [i \in Stream |-> NoStream]

Load == l = 0 /\ tab = <<>> /\ tab' = MkTab(TR) /\ UNCHANGED <<st, t, l, es>>

Explain ==
  /\ tab # <<>>
  /\ l < Len(TR.ev)
  /\ Step(TR.ev[l + 1])
  /\ l' = l + 1
  /\ UNCHANGED <<t, tab>>

Done == tab # <<>> /\ l = Len(TR.ev) /\ UNCHANGED tv

TraceNext == Load \/ Explain \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tv

TraceView == <<st, t, l, tab = <<>>, es>>
(* What is shown of a rejected trace. *)
TraceAlias == [t |-> t, l |-> l, st |-> IF tab # <<>> /\ l < Len(TR.ev) THEN st ELSE <<>>,
               es |-> IF l > 0 THEN es ELSE <<>>]
=============================================================================
