------------------------------ MODULE CostTrace -----------------------------
(***************************************************************************)
(* Measurements of the real trees: objects and bytes which an operation on *)
(* a tree of n entries allocates.  Copying on write takes cells of a path  *)
(* (RBTree shows that it makes at most twice as many cells as the tree is  *)
(* high, and a path of a radix tree has a node per bit at most); the code  *)
(* may take a few objects for a cell and some more for the call, but it    *)
(* can't copy the tree.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
TR == Traces[t]

(* The least k with 2 ^ k >= n. *)
Log2(n) == CHOOSE k \in 0..30 : 2 ^ k >= n /\ (k = 0 \/ 2 ^ (k - 1) < n)

(* Cells of a red-black tree: twice the height of at most 2 * log2(n + 1). *)
RedBlack(n) == 4 * Log2(n + 1) + 4
Cells(kind, n, deep) ==
  CASE kind = "radix32" -> 33
    [] kind = "radix64" -> 65
    [] kind = "ip"      -> 130             \* a trie within of another one
    [] kind = "dom"     -> deep * (RedBlack(n) + 2)
    [] OTHER            -> RedBlack(n)

(* Listings and updates show c entries and take a few objects for each one, and for each label of names. *)
Objects(e) == 4 * Cells(TR.kind, e.n, e.deep) + 64 + 16 * e.deep * e.c
Bytes(e) == 128 * Objects(e)

Within(e) == e.a <= Objects(e) /\ e.b <= Bytes(e)
(* Measurements of trees which are too small to tell anything don't count. *)
Telling(e) == 2 * Objects([e EXCEPT !.c = 0]) < e.n

Init == t \in 1..Len(Traces) /\ l = 0
Explain == l < Len(TR.ev) /\ TR.ev[l + 1].e = "cost" /\ Telling(TR.ev[l + 1]) /\ Within(TR.ev[l + 1]) /\ l' = l + 1 /\ UNCHANGED t
Done == l = Len(TR.ev) /\ UNCHANGED <<t, l>>
Spec == Init /\ [][Explain \/ Done]_<<t, l>>
=============================================================================
