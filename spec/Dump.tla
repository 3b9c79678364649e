-------------------------------- MODULE Dump --------------------------------
(***************************************************************************)
(* The dump of a binary tree to Graphviz format: nodes are numbered in     *)
(* order of a breadth-first walk, and number of a child is computed from   *)
(* the length of the queue before the child is met.  For every tree of up  *)
(* to MaxN nodes the result has to be a single tree rooted at N0 where     *)
(* every node is defined once and which reads as the original one.         *)
(***************************************************************************)
EXTENDS Seqs

CONSTANT MaxN

Nil == <<>>
(* All shapes of n nodes: <<left, right>>. *)
RECURSIVE Shapes(_)
Shapes(n) == IF n = 0 THEN {Nil}
             ELSE UNION {{<<x, y>> : x \in Shapes(i), y \in Shapes(n - 1 - i)} : i \in 0..(n - 1)}

VARIABLES tree, queue, i, nodes, edges
vars == <<tree, queue, i, nodes, edges>>

(* Nodes in the queue are known by paths from the root. *)
RECURSIVE At(_, _)
At(t, p) == IF p = <<>> THEN t ELSE At(t[Head(p)], Tail(p))
RECURSIVE Paths(_, _)
Paths(t, p) == IF t = Nil THEN <<>> ELSE Paths(t[1], Append(p, 1)) \o <<p>> \o Paths(t[2], Append(p, 2))

Init == /\ tree \in UNION {Shapes(n) : n \in 0..MaxN}
        /\ queue = <<<<>>>> /\ i = 0 /\ nodes = <<>> /\ edges = <<>>

Step ==
  /\ queue # <<>>
  /\ LET p == Head(queue)
         n == At(tree, p)
         inner == n # Nil /\ n # <<Nil, Nil>>
     IN  /\ nodes' = Append(nodes, [num |-> i, nil |-> n = Nil, path |-> p])
         /\ edges' = IF inner THEN Append(edges, <<i, i + Len(queue), i + Len(queue) + 1>>) ELSE edges
         /\ queue' = Tail(queue) \o (IF inner THEN <<Append(p, 1), Append(p, 2)>> ELSE <<>>)
         /\ i' = i + 1
  /\ UNCHANGED tree

Spec == Init /\ [][Step]_vars

-----------------------------------------------------------------------------
Done == queue = <<>>
Kids(n) == LET e == {x \in 1..Len(edges) : edges[x][1] = n} IN
           IF e = {} THEN <<>> ELSE LET x == CHOOSE y \in e : TRUE IN <<edges[x][2], edges[x][3]>>
RECURSIVE Reading(_)
Reading(n) ==
  LET k == Kids(n)
      me == IF nodes[n + 1].nil THEN <<>> ELSE <<nodes[n + 1].path>>
  IN  IF k = <<>> THEN me ELSE Reading(k[1]) \o me \o Reading(k[2])

Depicts ==
  Done => /\ \A x, y \in 1..Len(nodes) : nodes[x].num = nodes[y].num => x = y
          /\ \A x, y \in 1..Len(edges) : edges[x][1] = edges[y][1] => x = y
          /\ \A n \in 1..(Len(nodes) - 1) :
               Cardinality({<<x, b>> \in (1..Len(edges)) \X {2, 3} : edges[x][b] = n}) = 1
          /\ \A x \in 1..Len(edges) : edges[x][2] \in 1..(Len(nodes) - 1) /\ edges[x][3] \in 1..(Len(nodes) - 1)
          /\ Reading(0) = Paths(tree, <<>>)
=============================================================================
