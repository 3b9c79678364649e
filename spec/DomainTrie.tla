----------------------------- MODULE DomainTrie -----------------------------
(***************************************************************************)
(* domaintree: every node keeps a value or not and a map from labels to    *)
(* nodes.  Insertion copies nodes down the path, deletion copies them back *)
(* to the root and drops the ones which keep nothing any more.             *)
(* A node is <<value or "-", child of label 1, ..., child of label L>>,    *)
(* <<>> if there is no node.  A name is a sequence of labels, root-most    *)
(* first.                                                                  *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json

CONSTANTS L, D, MaxN, EMIT
VARIABLE tree

Nil == <<>>
Fresh == <<"-">> \o [i \in 1..L |-> Nil]
Labels == 1..L
Names == UNION {[1..n -> Labels] : n \in 0..D}
Lt(a, b) == CmpInts(a, b) < 0
AllNames == SortSet(Names, Lt)

Val(n) == n[1]
Has(n) == n[1] # "-"
Sub(n, l) == n[1 + l]
WithSub(n, l, x) == [n EXCEPT ![1 + l] = x]
Bare(n) == \A l \in Labels : Sub(n, l) = Nil      \* no branches

-----------------------------------------------------------------------------
RECURSIVE Ins(_, _)
Ins(n, d) ==
  LET m == IF n = Nil THEN Fresh ELSE n
  IN  IF d = <<>> THEN [m EXCEPT ![1] = "n"]
      ELSE WithSub(m, Head(d), Ins(Sub(m, Head(d)), Tail(d)))

(* The value of the closest enclosing stored domain: its depth, or -1. *)
RECURSIVE GetD(_, _, _, _)
GetD(n, d, depth, best) ==
  IF n = Nil THEN best
  ELSE LET b == IF Has(n) THEN depth ELSE best
       IN  IF d = <<>> THEN b ELSE GetD(Sub(n, Head(d)), Tail(d), depth + 1, b)

(* Nodes from the root to the domain, <<>> if there is no such path. *)
RECURSIVE Branch(_, _)
Branch(n, d) ==
  IF n = Nil THEN <<>>
  ELSE IF d = <<>> THEN <<n>>
  ELSE LET r == Branch(Sub(n, Head(d)), Tail(d)) IN IF r = <<>> THEN <<>> ELSE <<n>> \o r

(* Puts new node n of depth i back to its ancestors. *)
RECURSIVE CopyBranch(_, _, _, _)
CopyBranch(nodes, d, i, n) ==
  IF i = 0 THEN n
  ELSE LET p == nodes[i]
       IN  CopyBranch(nodes, d, i - 1, WithSub(p, d[i], IF ~Has(n) /\ Bare(n) THEN Nil ELSE n))

Delete(n, d) ==
  IF n = Nil THEN <<Nil, FALSE>>
  ELSE LET b == Branch(n, d)
           k == Len(d)
       IN  IF b = <<>> \/ ~Has(b[k + 1]) THEN <<n, FALSE>>
           ELSE LET x == b[k + 1]
                IN  IF k = 0 THEN <<[x EXCEPT ![1] = "-"], TRUE>>
                    ELSE LET p == WithSub(b[k], d[k], IF Bare(x) THEN Nil ELSE [x EXCEPT ![1] = "-"])
                         IN  <<CopyBranch(b, d, k - 1, p), TRUE>>

DeleteSub(n, d) ==
  IF n = Nil THEN <<Nil, FALSE>>
  ELSE LET b == Branch(n, d)
           k == Len(d)
       IN  IF b = <<>> \/ (~Has(b[k + 1]) /\ Bare(b[k + 1])) THEN <<n, FALSE>>
           ELSE IF k = 0 THEN <<Fresh, TRUE>>
           ELSE <<CopyBranch(b, d, k - 1, WithSub(b[k], d[k], Nil)), TRUE>>

RECURSIVE List(_, _)
List(n, d) ==
  IF n = Nil THEN <<>>
  ELSE (IF Has(n) THEN <<<<d, Val(n)>>>> ELSE <<>>)
       \o FoldLeft(LAMBDA a, l : a \o List(Sub(n, l), Append(d, l)), <<>>, [i \in 1..L |-> i])

RECURSIVE Age(_)
Age(n) == IF n = Nil THEN Nil ELSE <<IF Has(n) THEN "o" ELSE "-">> \o [l \in Labels |-> Age(Sub(n, l))]

-----------------------------------------------------------------------------
Content(n) == LET l == List(n, <<>>) IN {l[i][1] : i \in 1..Len(l)}

Want(op, d, old) ==
  CASE op = "del"  -> old \ {d}
    [] op = "dsub" -> {x \in old : ~Pre(d, x)}
    [] OTHER       -> old \cup {d}

Step(op, d) ==
  LET r == CASE op = "del"  -> Delete(tree, d)
             [] op = "dsub" -> DeleteSub(tree, d)
             [] OTHER       -> <<Ins(tree, d), TRUE>>
      old == Content(tree)
      l   == List(r[1], <<>>)
      del == op \in {"del", "dsub"}
  IN  /\ Assert(Content(r[1]) = Want(op, d, old) /\ Len(l) = Cardinality(Want(op, d, old)), <<"content", op, d, tree, r>>)
      /\ Assert(\A i \in 1..Len(l) : /\ i > 1 => Lt(l[i - 1][1], l[i][1])
                                     /\ (l[i][2] = "n") = (~del /\ l[i][1] = d), <<"listing", op, d, tree, r>>)
      /\ Assert(del => r[2] = (Content(r[1]) # old), <<"flag", op, d, tree>>)
      /\ tree' = Age(r[1])
      /\ EMIT => PrintT("@e" \o ToJson(<<tree, op, d, Age(r[1]), r[2], l>>))

Init == tree = Nil
Next ==
  \E d \in Names : \E op \in {"ins", "inp", "del", "dsub"} :
    /\ op \in {"ins", "inp"} => Cardinality(Content(tree) \cup {d}) <= MaxN
    /\ Step(op, d)
Spec == Init /\ [][Next]_tree

-----------------------------------------------------------------------------
(* No node but the root is left without a value below it. *)
RECURSIVE Alive(_)
Alive(n) == \A l \in Labels : LET s == Sub(n, l) IN s # Nil => (Has(s) \/ ~Bare(s)) /\ Alive(s)
NoRemains == tree # Nil => Alive(tree)

Longest(d) ==
  LET A == {Len(x) : x \in {y \in Content(tree) : Pre(y, d)}}
  IN  IF A = {} THEN -1 ELSE SetMax(A)
Lookups == \A d \in Names : GetD(tree, d, 0, -1) = Longest(d)

EmitState ==
  EMIT => PrintT("@s" \o ToJson(<<tree,
     [i \in 1..Len(AllNames) |-> <<AllNames[i],
        IF Longest(AllNames[i]) < 0 THEN <<"none">> ELSE SubSeq(AllNames[i], 1, Longest(AllNames[i]))>>]>>))
=============================================================================
