------------------------------- MODULE RBTree -------------------------------
(***************************************************************************)
(* The red-black tree (operations are in RBOps): every operation on every  *)
(* shape of a tree.                                                        *)
(*                                                                         *)
(* A state is the coloured shape of a tree; keys are ranks, so one state   *)
(* stands for every tree of that shape.  In an operation stored keys are   *)
(* 2, 4, 6, ... and a key which isn't stored is odd: the operation is run  *)
(* on cells, its result is compared with the map it has to implement and   *)
(* turned back to a shape.  Every transition is printed for the replay     *)
(* into the real trees (lines "@e") when EMIT is set.                      *)
(***************************************************************************)
EXTENDS RBOps, TLC, Json

CONSTANTS MaxN,   \* keys in a tree
          EMIT

VARIABLE shape    \* <<>> or <<red, left, right>>

-----------------------------------------------------------------------------
(* What operations have to do to the map 2 -> "o", 4 -> "o", ... *)
Before(n) == [i \in 1..n |-> <<2 * i, "o">>]
WantInsert(n, key) ==
  LET i == key \div 2
  IN  IF key % 2 = 0 THEN [Before(n) EXCEPT ![i] = <<key, "n">>]
      ELSE SubSeq(Before(n), 1, i) \o <<<<key, "n">>>> \o SubSeq(Before(n), i + 1, n)
WantDelete(n, key) == SelectSeq(Before(n), LAMBDA x : x[1] # key)

(* The cells which existed before are what other versions are made of. *)
Untouched(h, res) == SubSeq(res.h, 1, Len(h)) = h

Step(op, key) ==
  LET n   == Size(shape)
      ld  == Load(shape, <<>>, 0)
      res == CASE op = "ins" -> InsertOp(ld.h, ld.p, key, TRUE)
               [] op = "inp" -> InsertOp(ld.h, ld.p, key, FALSE)
               [] op = "del" -> DeleteOp(ld.h, ld.p, key)
      got == InOrder(res.h, res.p)
      to  == ShapeOf(res.h, res.p)
      ok  == IF op = "del" THEN res.ok ELSE TRUE
  IN  /\ Assert(got = (IF op = "del" THEN WantDelete(n, key) ELSE WantInsert(n, key)),
                <<"content", op, key, shape, got>>)
      /\ Assert(op = "del" => ok = (key % 2 = 0), <<"flag", op, key, shape>>)
      /\ Assert(op = "inp" \/ Untouched(ld.h, res), <<"shared cell is changed", op, key, shape>>)
      /\ Assert(Len(res.h) - Len(ld.h) <= (IF op = "inp" THEN 2 ELSE 2 * Height(shape) + 3), <<"too many cells", op, key, shape>>)
      /\ shape' = to
      /\ EMIT => PrintT("@e" \o ToJson(<<shape, op, key, to, ok, got>>))

Init == shape = <<>>
Next ==
  \E key \in 1..(2 * Size(shape) + 1) : \E op \in {"ins", "inp", "del"} :
    /\ (op # "del" /\ key % 2 = 1) => Size(shape) < MaxN
    /\ Step(op, key)

Spec == Init /\ [][Next]_shape

-----------------------------------------------------------------------------
(* Red-black rules. *)
RootBlack == shape = <<>> \/ ~shape[1]
Balanced == RootBlack /\ NoRedRed(shape) /\ BlackHeight(shape) # -1
(* h <= 2 log2(n + 1) *)
Logarithmic == 2 ^ Height(shape) <= (Size(shape) + 1) ^ 2
=============================================================================
