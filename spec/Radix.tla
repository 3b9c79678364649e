------------------------------- MODULE Radix --------------------------------
(***************************************************************************)
(* The path-compressed binary trie of numtree (and of the trees generated  *)
(* from iptree{{.bits}}), transcribed: a node is <<key, bits, leaf, value, *)
(* left, right>>, nil is <<>>.  Keys are words of W bits; bits of a key    *)
(* after its prefix are kept as they came (GARBAGE lets them be anything). *)
(* Every state is a trie; every operation is run by the transcription and  *)
(* compared with the set of prefixes it stands for.                        *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json

CONSTANTS W, MaxN, GARBAGE, EMIT

VARIABLE tree

Nil == <<>>
Node(k, b, leaf, v, l, r) == <<k, b, leaf, v, l, r>>
Key(t) == t[1]
Bits(t) == t[2]
Leaf(t) == t[3]
Val(t) == t[4]
Chld(t, b) == t[5 + b]
WithChld(t, b, c) == [t EXCEPT ![5 + b] = c]

Mask(k, n) == (k \div Pow2(W - n)) * Pow2(W - n)
Bit(k, i) == (k \div Pow2(W - 1 - i)) % 2           \* i = 0 is the most significant one
Same(a, b, n) == Mask(a, n) = Mask(b, n)
RECURSIVE Common(_, _, _, _)
Common(a, b, n, i) == IF i >= n \/ Bit(a, i) # Bit(b, i) THEN i ELSE Common(a, b, n, i + 1)

-----------------------------------------------------------------------------
RECURSIVE Ins(_, _)
Ins(t, c) ==
  IF t = Nil THEN c
  ELSE LET bits == Common(Key(t), Key(c), Min2(Bits(t), Bits(c)), 0)
       IN  IF bits < Bits(t)
           THEN LET br == Bit(Key(t), bits)
                IN  IF bits = Bits(c) THEN WithChld(c, br, t)
                    ELSE WithChld(WithChld(Node(Mask(Key(c), bits), bits, FALSE, "-", Nil, Nil), br, t), 1 - br, c)
           ELSE IF Bits(c) = Bits(t) THEN Node(Key(c), Bits(c), TRUE, Val(c), Chld(t, 0), Chld(t, 1))
           ELSE LET br == Bit(Key(c), bits) IN WithChld(t, br, Ins(Chld(t, br), c))

RECURSIVE Del(_, _, _)
Del(t, key, bits) ==      \* <<result, deleted>>
  IF t = Nil THEN <<Nil, FALSE>>
  ELSE IF bits <= Bits(t) THEN IF Same(Key(t), key, bits) THEN <<Nil, TRUE>> ELSE <<t, FALSE>>
  ELSE IF ~Same(Key(t), key, Bits(t)) THEN <<t, FALSE>>
  ELSE LET br == Bit(key, Bits(t))
           c  == Chld(t, br)
       IN  IF c = Nil THEN <<t, FALSE>>
           ELSE LET d == Del(c, key, bits)
                IN  IF ~d[2] THEN <<t, FALSE>>
                    ELSE IF d[1] = Nil /\ ~Leaf(t) THEN <<Chld(t, 1 - br), TRUE>>
                    ELSE <<WithChld(t, br, d[1]), TRUE>>

(* The node found, or Nil. *)
RECURSIVE Match(_, _, _, _)
Match(t, key, bits, exact) ==
  IF t = Nil \/ Bits(t) > bits THEN Nil
  ELSE IF Bits(t) = bits THEN IF Leaf(t) /\ Same(Key(t), key, bits) THEN t ELSE Nil
  ELSE IF ~Same(Key(t), key, Bits(t)) THEN Nil
  ELSE LET r == Match(Chld(t, Bit(key, Bits(t))), key, bits, exact)
       IN  IF r # Nil THEN r ELSE IF Leaf(t) /\ ~exact THEN t ELSE Nil

RECURSIVE List(_)
List(t) == IF t = Nil THEN <<>>
           ELSE (IF Leaf(t) THEN <<<<Mask(Key(t), Bits(t)), Bits(t), Val(t)>>>> ELSE <<>>)
                \o List(Chld(t, 0)) \o List(Chld(t, 1))

RECURSIVE Age(_)     \* all values become old
Age(t) == IF t = Nil THEN Nil
          ELSE Node(Key(t), Bits(t), Leaf(t), IF Leaf(t) THEN "o" ELSE "-", Age(Chld(t, 0)), Age(Chld(t, 1)))

RECURSIVE Nodes(_)
Nodes(t) == IF t = Nil THEN 0 ELSE 1 + Nodes(Chld(t, 0)) + Nodes(Chld(t, 1))

-----------------------------------------------------------------------------
(* The meaning: prefixes <<word, length>> in enumeration order. *)
Pfxs == UNION {{<<Mask(k, n), n>> : k \in 0..(Pow2(W) - 1)} : n \in 0..W}
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Inside(a, b) == b[2] <= a[2] /\ Same(a[1], b[1], b[2])      \* a is in b
AllPrefixes == SortSet(Pfxs, Lt)

Content(t) == {<<x[1], x[2]>> : x \in {List(t)[i] : i \in 1..Len(List(t))}}

Check(op, k, b, to, ok) ==
  LET p    == <<Mask(k, b), b>>
      old  == Content(tree)
      want == IF op = "del" THEN {q \in old : ~Inside(q, p)} ELSE old \cup {p}
      l    == List(to)
  IN  /\ Assert(Len(l) = Cardinality(want) /\ Content(to) = want, <<"content", op, k, b, tree, to>>)
      /\ Assert(\A i \in 1..Len(l) : /\ i > 1 => Lt(l[i - 1], l[i])
                                     /\ (l[i][3] = "n") = (op # "del" /\ <<l[i][1], l[i][2]>> = p),
                <<"listing", op, k, b, tree, to>>)
      /\ Assert(op = "del" => ok = (want # old), <<"flag", op, k, b, tree>>)

Step(op, k, b) ==
  LET d  == IF op = "del" THEN Del(tree, k, b) ELSE <<Ins(tree, Node(k, b, TRUE, "n", Nil, Nil)), TRUE>>
      to == Age(d[1])
  IN  /\ Check(op, k, b, d[1], d[2])
      /\ tree' = to
      /\ EMIT => PrintT("@e" \o ToJson(<<tree, op, <<k, b>>, to, d[2],
                                  [i \in 1..Len(List(d[1])) |-> <<<<List(d[1])[i][1], List(d[1])[i][2]>>, List(d[1])[i][3]>>]>>))

Words(b) == IF GARBAGE THEN 0..(Pow2(W) - 1) ELSE {Mask(k, b) : k \in 0..(Pow2(W) - 1)}

Init == tree = Nil
Next ==
  \E b \in 0..W : \E k \in Words(b) : \E op \in {"ins", "inp", "del"} :
    /\ op # "del" => Cardinality(Content(tree) \cup {<<Mask(k, b), b>>}) <= MaxN
    /\ Step(op, k, b)
Spec == Init /\ [][Next]_tree

-----------------------------------------------------------------------------
RECURSIVE Shaped(_)
Shaped(t) ==
  t = Nil \/
    /\ Leaf(t) \/ (Chld(t, 0) # Nil /\ Chld(t, 1) # Nil)
    /\ \A b \in {0, 1} : LET c == Chld(t, b) IN
         c # Nil => /\ Bits(c) > Bits(t)
                    /\ Same(Key(c), Key(t), Bits(t))
                    /\ Bit(Key(c), Bits(t)) = b
                    /\ Shaped(c)
Structure == Shaped(tree) /\ (tree # Nil => Nodes(tree) <= 2 * Cardinality(Content(tree)) - 1)

Longest(p) ==
  LET A == {q \in Content(tree) : Inside(p, q)}
  IN  IF A = {} THEN <<>> ELSE CHOOSE q \in A : \A o \in A : o[2] <= q[2]
Found(t) == IF t = Nil THEN <<>> ELSE <<Mask(Key(t), Bits(t)), Bits(t)>>
Lookups ==
  \A b \in 0..W : \A k \in 0..(Pow2(W) - 1) :
    LET p == <<Mask(k, b), b>>
    IN  /\ Found(Match(tree, k, b, FALSE)) = Longest(p)
        /\ Found(Match(tree, k, b, TRUE)) = (IF p \in Content(tree) THEN p ELSE <<>>)

(* Printed once for a state: what lookups of all prefixes have to find. *)
EmitState ==
  EMIT => PrintT("@s" \o ToJson(<<tree, [i \in 1..Len(AllPrefixes) |-> <<AllPrefixes[i], Longest(AllPrefixes[i])>>]>>))
=============================================================================
