-------------------------------- MODULE RBOps -------------------------------
(***************************************************************************)
(* Operations of the red-black tree behind strtree, dltree and the label   *)
(* trees of domaintree at the level of cells: top-down insertion and       *)
(* deletion with copying of cells on the way (persistent) and top-down     *)
(* insertion without copying (in place).  An operation is a start, steps   *)
(* of its loop and a finish so that it may be interleaved with others.     *)
(***************************************************************************)
EXTENDS Seqs

(* Directions: 1 - left, 2 - right; 3 - dir is the opposite one. *)
Turn(r) == IF r < 0 THEN 2 ELSE 1
Compare(a, b) == IF a = b THEN 0 ELSE IF a < b THEN -1 ELSE 1

-----------------------------------------------------------------------------
(* Cells.  A pointer is an index of a cell, 0 is nil. *)
Cell(k, v, red, ch) == [k |-> k, v |-> v, red |-> red, ch |-> ch]
IsRed(h, p) == p # 0 /\ h[p].red
Set(h, p, d, x) == [h EXCEPT ![p].ch[d] = x]
Paint(h, p, c) == [h EXCEPT ![p].red = c]
CopyOf(h, p) == Append(h, h[p])          \* the copy is Len of the result

RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 0 ELSE 1 + Size(s[2]) + Size(s[3])

(* Cells of a shape; n keys are already on the left. *)
RECURSIVE Load(_, _, _)
Load(s, h, n) ==
  IF s = <<>> THEN [h |-> h, p |-> 0]
  ELSE LET a == Load(s[2], h, n)
           k == n + Size(s[2]) + 1
           b == Load(s[3], a.h, k)
           x == Append(b.h, Cell(2 * k, "o", s[1], <<a.p, b.p>>))
       IN  [h |-> x, p |-> Len(x)]

RECURSIVE ShapeOf(_, _)
ShapeOf(h, p) == IF p = 0 THEN <<>> ELSE <<h[p].red, ShapeOf(h, h[p].ch[1]), ShapeOf(h, h[p].ch[2])>>

RECURSIVE InOrder(_, _)
InOrder(h, p) == IF p = 0 THEN <<>>
                 ELSE InOrder(h, h[p].ch[1]) \o <<<<h[p].k, h[p].v>>>> \o InOrder(h, h[p].ch[2])

-----------------------------------------------------------------------------
(* Rotations. *)
Single(h, n, dir) ==
  LET s  == h[n].ch[dir]
      h1 == Set(Set(h, n, dir, h[s].ch[3 - dir]), s, 3 - dir, n)
  IN  [h |-> Paint(Paint(h1, n, TRUE), s, FALSE), p |-> s]

Double(h, n, dir) ==
  LET a == Single(h, h[n].ch[dir], 3 - dir)
  IN  Single(Set(a.h, n, dir, a.p), n, dir)

(***************************************************************************)
(* Insertion.  Registers: gp, g, p, n - the path; c - children which are   *)
(* fresh copies; dir - last direction; r - comparison of n with the key.   *)
(***************************************************************************)
InsertStep(s, key, cow) ==
    LET pdir == s.dir
        dir  == Turn(s.r)
        gp   == s.g
        g    == s.p
        p    == s.n
        n0   == s.h[p].ch[dir]
        new  == n0 = 0
        h1   == IF new THEN Append(s.h, Cell(key, "-", TRUE, <<0, 0>>))
                ELSE IF cow /\ n0 # s.c[dir] THEN CopyOf(s.h, n0) ELSE s.h
        n    == IF new \/ (cow /\ n0 # s.c[dir]) THEN Len(h1) ELSE n0
        flip == ~new /\ IsRed(h1, h1[n].ch[1]) /\ IsRed(h1, h1[n].ch[2])
        h2   == IF ~flip THEN h1
                ELSE IF cow
                  THEN LET a == CopyOf(Paint(h1, n, TRUE), h1[n].ch[1])
                           b == CopyOf(a, h1[n].ch[2])
                           x == Set(Set(b, n, 1, Len(a)), n, 2, Len(b))
                       IN  Paint(Paint(x, Len(a), FALSE), Len(b), FALSE)
                  ELSE Paint(Paint(Paint(h1, n, TRUE), h1[n].ch[1], FALSE), h1[n].ch[2], FALSE)
        c2   == IF flip /\ cow THEN h2[n].ch ELSE <<0, 0>>
        h3   == Set(h2, p, dir, n)
        viol == h3[n].red /\ h3[p].red
        gdir == IF viol /\ h3[gp].ch[2] = g THEN 2 ELSE 1
        rot  == IF ~viol THEN [h |-> h3, p |-> 0]
                ELSE IF n = h3[p].ch[pdir] THEN Single(h3, g, pdir) ELSE Double(h3, g, pdir)
        sgl  == viol /\ n = h3[p].ch[pdir]
        h4   == IF viol THEN Set(rot.h, gp, gdir, rot.p) ELSE h3
    IN   [h |-> h4, n |-> n, dir |-> dir,
          gp |-> gp,
          g  |-> IF viol /\ sgl THEN gp ELSE g,
          p  |-> IF viol /\ ~sgl THEN gp ELSE p,
          c  |-> IF viol /\ ~sgl THEN h4[n].ch ELSE c2,
          r  |-> Compare(h4[n].k, key)]
InsertDone(s) == s.r = 0
InsertStart(h, root) ==
  LET h0 == Append(h, Cell(-1, "-", FALSE, <<0, root>>))
  IN  [h |-> h0, gp |-> 0, g |-> 0, p |-> 0, n |-> Len(h0), c |-> <<0, 0>>, dir |-> 1, r |-> -1]
InsertFinish(s, f) ==          \* f is the fake root
  LET h1 == [s.h EXCEPT ![s.n].v = "n"]
      p1 == h1[f].ch[2]
  IN  [h |-> Paint(h1, p1, FALSE), p |-> p1]

RECURSIVE InsertLoop(_, _, _)
InsertLoop(s, key, cow) == IF InsertDone(s) THEN s ELSE InsertLoop(InsertStep(s, key, cow), key, cow)

InsertOp(h, root, key, cow) ==
  IF root = 0 THEN LET x == Append(h, Cell(key, "n", FALSE, <<0, 0>>)) IN [h |-> x, p |-> Len(x)]
  ELSE LET s == InsertStart(h, root) IN InsertFinish(InsertLoop(s, key, cow), s.n)

(***************************************************************************)
(* Deletion: goes down to a leaf keeping the current cell red, then moves  *)
(* the pair of the last cell to the target.                                *)
(***************************************************************************)
DeleteStep(s, key) ==
    LET pdir == s.dir
        g    == s.p
        p    == s.n
        h1   == LET x == CopyOf(s.h, s.h[p].ch[pdir]) IN Set(x, p, pdir, Len(x))
        n    == h1[p].ch[pdir]
        r    == Compare(h1[n].k, key)
        dir  == Turn(r)
        t    == IF r = 0 THEN n ELSE s.t
        next(h, q) == [h |-> h, p |-> q, n |-> n, dir |-> dir, t |-> t, g |-> g]
    IN    IF h1[n].red \/ IsRed(h1, h1[n].ch[dir]) THEN next(h1, p)
          ELSE IF IsRed(h1, h1[n].ch[3 - dir])
          THEN LET x == CopyOf(h1, h1[n].ch[3 - dir])
                   y == Single(Set(x, n, 3 - dir, Len(x)), n, 3 - dir)
               IN  next(Set(y.h, p, pdir, y.p), y.p)
          ELSE LET s0 == h1[p].ch[3 - pdir]
               IN  IF s0 = 0 THEN next(h1, p)
                   ELSE
                     LET x  == CopyOf(h1, s0)
                         sb == Len(x)
                         h2 == Set(x, p, 3 - pdir, sb)
                     IN  IF ~IsRed(h2, h2[sb].ch[1]) /\ ~IsRed(h2, h2[sb].ch[2])
                         THEN next(Paint(Paint(Paint(h2, p, FALSE), n, TRUE), sb, TRUE), p)
                         ELSE
                           LET gdir == IF h2[g].ch[2] = p THEN 2 ELSE 1
                               near == IsRed(h2, h2[sb].ch[pdir])
                               cd   == IF near THEN pdir ELSE 3 - pdir
                               y    == CopyOf(h2, h2[sb].ch[cd])
                               h3   == Set(y, sb, cd, Len(y))
                               rot  == IF near THEN Double(h3, p, 3 - pdir) ELSE Single(h3, p, 3 - pdir)
                               h4   == Paint(Set(rot.h, g, gdir, rot.p), n, TRUE)
                               top  == h4[g].ch[gdir]
                               h5   == Paint(h4, top, TRUE)
                           IN  next(Paint(Paint(h5, h5[top].ch[1], FALSE), h5[top].ch[2], FALSE), p)

DeleteDone(s) == s.h[s.n].ch[s.dir] = 0
DeleteStart(h, root) ==
  LET h0 == Append(h, Cell(-1, "-", FALSE, <<0, root>>))
  IN  [h |-> h0, g |-> 0, p |-> 0, n |-> Len(h0), dir |-> 2, t |-> 0]
DeleteFinish(s, f) ==
  LET h1 == IF s.t = 0 THEN s.h
            ELSE LET a == [s.h EXCEPT ![s.t].k = s.h[s.n].k, ![s.t].v = s.h[s.n].v]
                     d == IF a[s.p].ch[2] = s.n THEN 2 ELSE 1
                     c == IF a[s.n].ch[1] = 0 THEN 2 ELSE 1
                 IN  Set(a, s.p, d, a[s.n].ch[c])
      p1 == h1[f].ch[2]
  IN  [h |-> IF p1 = 0 THEN h1 ELSE Paint(h1, p1, FALSE), p |-> p1, ok |-> s.t # 0]

RECURSIVE DeleteLoop(_, _)
DeleteLoop(s, key) == IF DeleteDone(s) THEN s ELSE DeleteLoop(DeleteStep(s, key), key)

DeleteOp(h, root, key) == LET s == DeleteStart(h, root) IN DeleteFinish(DeleteLoop(s, key), s.n)

-----------------------------------------------------------------------------
(* Red-black rules. *)
RECURSIVE BlackHeight(_)
BlackHeight(s) ==      \* -1 if ways differ
  IF s = <<>> THEN 1
  ELSE LET a == BlackHeight(s[2])
           b == BlackHeight(s[3])
       IN  IF a = -1 \/ a # b THEN -1 ELSE IF s[1] THEN a ELSE a + 1
RECURSIVE NoRedRed(_)
NoRedRed(s) ==
  s = <<>> \/ /\ s[1] => \A i \in {2, 3} : s[i] = <<>> \/ ~s[i][1]
              /\ NoRedRed(s[2]) /\ NoRedRed(s[3])
RECURSIVE Height(_)
Height(s) == IF s = <<>> THEN 0 ELSE 1 + Max2(Height(s[2]), Height(s[3]))
=============================================================================
