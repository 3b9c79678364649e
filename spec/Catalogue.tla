----------------------------- MODULE Catalogue ------------------------------
(***************************************************************************)
(* Meaning of the generator (etc): names of templates and their texts are  *)
(* sequences of tokens, a piece of text or a path of keys in the data.     *)
(*   token:  [t |-> text, r |-> <<>>]  or  [t |-> "", r |-> <<keys>>]      *)
(*           or  [t |-> text, r |-> <<>>, x |-> TRUE]: makes its template fail     *)
(*           or  [r |-> <<keys>>, k |-> "if", a, b |-> texts]: a if it is true, else b *)
(*           or  [r |-> <<keys>>, k |-> "range", a, b |-> texts]: a and the item for each item of a list, b for none *)
(*   data:   [s |-> text, m |-> <<<<key, data>>, ...>>], m = <<>> - scalar *)
(*           with "no" when it counts as false; l |-> <<texts>> - list     *)
(*   path:   sequence of names                                             *)
(*   template: [p |-> path, dir |-> BOOLEAN, c |-> text as tokens]         *)
(*   file:   [p |-> <<texts>>, dir |-> BOOLEAN, c |-> text]                *)
(***************************************************************************)
EXTENDS Seqs

NoData == [s |-> "", m |-> <<>>, none |-> TRUE]
IsNone(d) == "none" \in DOMAIN d

RECURSIVE Select(_, _)
Select(d, keys) ==
  IF keys = <<>> THEN d
  ELSE LET i == {x \in 1..Len(d.m) : d.m[x][1] = Head(keys)}
       IN  IF i = {} THEN NoData ELSE Select(d.m[CHOOSE x \in i : TRUE][2], Tail(keys))

Untrue(v) == IF "l" \in DOMAIN v THEN v.l = <<>> ELSE "no" \in DOMAIN v

Said(t, v) ==
  IF "k" \notin DOMAIN t THEN v.s
  ELSE IF t.k = "if" THEN (IF Untrue(v) THEN t.b ELSE t.a)
  ELSE IF v.l = <<>> THEN t.b
  ELSE FoldLeft(LAMBDA a, e : a \o t.a \o e, "", v.l)

Fill(tokens, d) ==
  FoldLeft(LAMBDA a, t : a \o (IF t.r = <<>> THEN t.t ELSE Said(t, Select(d, t.r))), "", tokens)

FillPath(p, d) == [i \in 1..Len(p) |-> Fill(p[i], d)]
HasRef(p) == \E i \in 1..Len(p) : \E j \in 1..Len(p[i]) : p[i][j].r # <<>>

(* How a path reads before anything is filled in. *)
Instance(x, d) == [p |-> FillPath(x.p, d), dir |-> x.dir, c |-> IF x.dir THEN "" ELSE Fill(x.c, d)]

(* Directories a path needs. *)
Parents(p) == {[p |-> SubSeq(p, 1, i), dir |-> TRUE, c |-> ""] : i \in 1..(Len(p) - 1)}

(* Files there have to be in the end if everything is fine. *)
Outcome(pre, tpl, d) ==
  LET out == {Instance(tpl[i], d) : i \in 1..Len(tpl)}
      all == out \cup UNION {Parents(x.p) : x \in out}
      was == {pre[i] : i \in 1..Len(pre)}
  IN  all \cup {x \in was : \A y \in all : y.p # x.p}

Refused(case) == IsNone(Select(case.data, case.sel)) \/ ~HasRef(case.tpl[1].p)

-----------------------------------------------------------------------------
(* Failures in the middle.  A template may fail because of its name or text. *)
Wrong(tokens) == \E i \in 1..Len(tokens) : "x" \in DOMAIN tokens[i]
Nameless(x) == \E i \in 1..Len(x.p) : Wrong(x.p[i])
Flawed(x) == Nameless(x) \/ Wrong(x.c)

(* Something else is where an instance has to be. *)
Blocked(pre, tpl, d) ==
  \E i \in 1..Len(tpl) :
    /\ ~Nameless(tpl[i])
    /\ LET p == FillPath(tpl[i].p, d)
       IN  \E k \in 1..Len(pre) :
             \/ pre[k].p = p /\ pre[k].dir # tpl[i].dir
             \/ ~pre[k].dir /\ Len(pre[k].p) < Len(p) /\ Pre(pre[k].p, p)

Failing(case) ==
  \/ \E i \in 1..Len(case.tpl) : Flawed(case.tpl[i])
  \/ Blocked(case.pre, case.tpl, Select(case.data, case.sel))

(***************************************************************************)
(* What may be there after a failure: what has been before and instances   *)
(* as they have to be; only an instance with a flaw in the text may be     *)
(* anything.                                                               *)
(***************************************************************************)
Partial(case, files) ==
  LET d     == Select(case.data, case.sel)
      was   == {case.pre[i] : i \in 1..Len(case.pre)}
      fine  == {Instance(case.tpl[i], d) : i \in {j \in 1..Len(case.tpl) : ~Flawed(case.tpl[j])}}
      dirs  == UNION {Parents(FillPath(case.tpl[i].p, d)) : i \in {j \in 1..Len(case.tpl) : ~Nameless(case.tpl[j])}}
      shaky == {FillPath(case.tpl[i].p, d) : i \in {j \in 1..Len(case.tpl) : ~Nameless(case.tpl[j]) /\ Wrong(case.tpl[j].c)}}
  IN  /\ \A f \in files : f \in was \cup fine \cup dirs \/ (~f.dir /\ f.p \in shaky)
      /\ \A f \in was : \E g \in files : g.p = f.p /\ g.dir = f.dir
=============================================================================
