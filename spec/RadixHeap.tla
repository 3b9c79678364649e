----------------------------- MODULE RadixHeap ------------------------------
(***************************************************************************)
(* Radix over a heap of cells: the persistent insertion, the loop of the    *)
(* in-place one and the deletion of numtree, transcribed with every write.  *)
(* For every trie and every operation:                                      *)
(*   - results are those of Radix;                                          *)
(*   - persistent operations write to no cell which was there before them,  *)
(*     and allocate at most a cell for every node of the path and two more; *)
(*   - the in-place insertion allocates at most two cells, and writes only  *)
(*     one of the old ones: the replaced node or the parent of a new one.   *)
(***************************************************************************)
EXTENDS Radix

(* A heap is a sequence of nodes (see Radix) with cell numbers for children, 0 is nil. *)
RECURSIVE Load(_, _)
Load(h, t) ==      \* <<heap, root>>
  IF t = Nil THEN <<h, 0>>
  ELSE LET l == Load(h, Chld(t, 0))
           r == Load(l[1], Chld(t, 1))
       IN  <<Append(r[1], Node(Key(t), Bits(t), Leaf(t), Val(t), l[2], r[2])), Len(r[1]) + 1>>

RECURSIVE Read(_, _)
Read(h, n) == IF n = 0 THEN Nil ELSE WithChld(WithChld(h[n], 0, Read(h, Chld(h[n], 0))), 1, Read(h, Chld(h[n], 1)))

Alloc(h, c) == <<Append(h, c), Len(h) + 1>>

(* insert(c): the candidate c is a cell already. *)
RECURSIVE HIns(_, _, _)
HIns(h, n, c) ==
  IF n = 0 THEN <<h, c>>
  ELSE LET t    == h[n]
           d    == h[c]
           bits == Common(Key(t), Key(d), Min2(Bits(t), Bits(d)), 0)
       IN  IF bits < Bits(t)
           THEN LET br == Bit(Key(t), bits)
                IN  IF bits = Bits(d) THEN <<[h EXCEPT ![c] = WithChld(@, br, n)], c>>
                    ELSE Alloc(h, WithChld(WithChld(Node(Mask(Key(d), bits), bits, FALSE, "-", 0, 0), br, n), 1 - br, c))
           ELSE IF Bits(d) = Bits(t) THEN <<[h EXCEPT ![c] = WithChld(WithChld(@, 0, Chld(t, 0)), 1, Chld(t, 1))], c>>
           ELSE LET m  == Alloc(h, t)
                    br == Bit(Key(d), bits)
                    s  == HIns(m[1], Chld(t, br), c)
                IN  <<[s[1] EXCEPT ![m[2]] = WithChld(@, br, s[2])], m[2]>>
Persistent(h, root, k, b) == LET c == Alloc(h, Node(k, b, TRUE, "n", 0, 0)) IN HIns(c[1], root, c[2])

(* inplaceInsert: root r, current cell n, its parent p and the branch of the parent taken. *)
RECURSIVE HLoop(_, _, _, _, _, _, _)
HLoop(h, r, n, p, br, k, b) ==
  LET link(h2, c) == IF p = 0 THEN <<h2, c>> ELSE <<[h2 EXCEPT ![p] = WithChld(@, br, c)], r>>
  IN  IF n = 0 THEN LET a == Alloc(h, Node(k, b, TRUE, "n", 0, 0)) IN link(a[1], a[2])
      ELSE LET t  == h[n]
               cb == Common(Key(t), k, Min2(Bits(t), b), 0)
           IN  IF cb < Bits(t)
               THEN LET nb == Bit(Key(t), cb)
                    IN  IF cb = b THEN LET a == Alloc(h, WithChld(Node(k, b, TRUE, "n", 0, 0), nb, n)) IN link(a[1], a[2])
                        ELSE LET a == Alloc(h, Node(k, b, TRUE, "n", 0, 0))
                                 m == Alloc(a[1], WithChld(WithChld(Node(Mask(k, cb), cb, FALSE, "-", 0, 0), nb, n), 1 - nb, a[2]))
                             IN  link(m[1], m[2])
               ELSE IF b = Bits(t) THEN <<[h EXCEPT ![n] = Node(k, b, TRUE, "n", Chld(t, 0), Chld(t, 1))], r>>
               ELSE HLoop(h, r, Chld(t, Bit(k, cb)), n, Bit(k, cb), k, b)
InPlace(h, root, k, b) == HLoop(h, root, root, 0, 0, k, b)

RECURSIVE HDel(_, _, _, _)
HDel(h, n, k, b) ==      \* <<heap, root, deleted>>
  IF n = 0 THEN <<h, 0, FALSE>>
  ELSE LET t == h[n] IN
       IF b <= Bits(t) THEN IF Same(Key(t), k, b) THEN <<h, 0, TRUE>> ELSE <<h, n, FALSE>>
       ELSE IF ~Same(Key(t), k, Bits(t)) THEN <<h, n, FALSE>>
       ELSE LET br == Bit(k, Bits(t))
                c  == Chld(t, br)
            IN  IF c = 0 THEN <<h, n, FALSE>>
                ELSE LET d == HDel(h, c, k, b)
                     IN  IF ~d[3] THEN <<h, n, FALSE>>
                         ELSE IF d[2] = 0 /\ ~Leaf(t) THEN <<d[1], Chld(t, 1 - br), TRUE>>
                         ELSE LET m == Alloc(d[1], WithChld(t, br, d[2])) IN <<m[1], m[2], TRUE>>

-----------------------------------------------------------------------------
(* Nodes on the way to a prefix. *)
RECURSIVE Path(_, _, _)
Path(t, k, b) ==
  IF t = Nil \/ Bits(t) >= b \/ ~Same(Key(t), k, Bits(t)) THEN 0
  ELSE 1 + Path(Chld(t, Bit(k, Bits(t))), k, b)

Untouched(h, g) == Len(g) >= Len(h) /\ SubSeq(g, 1, Len(h)) = h
Written(h, g) == {i \in 1..Len(h) : g[i] # h[i]}

(* Junk bits of keys may differ between the two insertions in no way at all. *)
Cells ==
  LET l == Load(<<>>, tree)
      h == l[1]
      r == l[2]
  IN  /\ Read(h, r) = tree
      /\ \A b \in 0..W : \A k \in Words(b) :
           LET p == Persistent(h, r, k, b)
               i == InPlace(h, r, k, b)
               d == HDel(h, r, k, b)
               want == Ins(tree, Node(k, b, TRUE, "n", Nil, Nil))
               gone == Del(tree, k, b)
           IN  /\ Read(p[1], p[2]) = want
               /\ Untouched(h, p[1])
               /\ Len(p[1]) - Len(h) <= Path(tree, k, b) + 2
               /\ Read(i[1], i[2]) = want
               /\ Len(i[1]) - Len(h) <= 2
               /\ Cardinality(Written(h, i[1])) <= 1
               /\ \A c \in Written(h, i[1]) : c = r \/ Len(i[1]) > Len(h) \/ h[c][4] # i[1][c][4]
               /\ <<Read(d[1], d[2]), d[3]>> = gone
               /\ Untouched(h, d[1])
               /\ Len(d[1]) - Len(h) <= Path(tree, k, b)
               /\ ~d[3] => d[1] = h /\ d[2] = r
=============================================================================
