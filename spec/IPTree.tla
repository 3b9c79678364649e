------------------------------- MODULE IPTree -------------------------------
(***************************************************************************)
(* The IPv6 half of IP trees: an outer trie over the first WM bits whose   *)
(* values may be inner tries over the other WL bits.  Two designs are      *)
(* described: the one of iptree (VARIANT "any": a network not longer than  *)
(* WM - 1 keeps its value in the outer trie, a longer one lives in the     *)
(* inner trie of its first half) and the one of the generated trees        *)
(* (VARIANT "uint": every value of the outer trie is an inner trie).       *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json

CONSTANTS WM, WL, MaxN, VARIANT, EMIT
VARIABLE tree

O == INSTANCE Radix WITH W <- WM, GARBAGE <- FALSE
N == INSTANCE Radix WITH W <- WL, GARBAGE <- FALSE

WW == WM + WL
Nil == <<>>
MaskW(k, n) == (k \div Pow2(WW - n)) * Pow2(WW - n)
Nets == UNION {{<<MaskW(k, n), n>> : k \in 0..(Pow2(WW) - 1)} : n \in 0..WW}
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
AllNets == SortSet(Nets, Lt)
Inside(a, b) == b[2] <= a[2] /\ MaskW(a[1], b[2]) = MaskW(b[1], b[2])

(* A network as a pair of keys. *)
MK(p) == p[1] \div Pow2(WL)
LK(p) == p[1] % Pow2(WL)
MB(p) == Min2(p[2], WM)
LB(p) == Max2(p[2] - WM, 0)

Plain(v) == <<"v", v>>
Inner(t) == <<"t", t>>
IsInner(x) == x[1] = "t"
OVal(t) == IF t = Nil THEN <<"none">> ELSE O!Val(t)
Leaf(k, b, v) == <<k, b, TRUE, v, Nil, Nil>>

(* Inner trie stored exactly at the first half of the network, or nil. *)
InnerOf(t, p) ==
  LET x == O!Match(t, MK(p), MB(p), TRUE)
  IN  IF x = Nil THEN Nil ELSE O!Val(x)[2]

Insert(t, p, v) ==
  IF VARIANT = "any" /\ MB(p) < WM THEN O!Ins(t, Leaf(MK(p), MB(p), Plain(v)))
  ELSE O!Ins(t, Leaf(MK(p), MB(p), Inner(N!Ins(InnerOf(t, p), Leaf(LK(p), LB(p), v)))))

Get(t, p) ==     \* <<value>>, or <<>> when there is none
  LET none == <<"none">>
      x == OVal(O!Match(t, MK(p), MB(p), FALSE))
      in(y) == LET m == N!Match(y[2], LK(p), LB(p), FALSE) IN IF m = Nil THEN <<>> ELSE <<N!Val(m)>>
  IN  IF x = none THEN <<>>
      ELSE IF VARIANT = "any"
      THEN IF MB(p) < WM \/ ~IsInner(x) THEN <<x[2]>>
           ELSE IF in(x) # <<>> THEN in(x)
           ELSE LET y == OVal(O!Match(t, MK(p), WM - 1, FALSE)) IN IF y = none THEN <<>> ELSE <<y[2]>>
      ELSE IF in(x) # <<>> \/ MB(p) < WM THEN in(x)
           ELSE LET y == OVal(O!Match(t, MK(p), MB(p) - 1, FALSE)) IN IF y = none THEN <<>> ELSE in(y)

Delete(t, p) ==  \* <<result, deleted>>
  IF MB(p) < WM THEN O!Del(t, MK(p), MB(p))
  ELSE LET s == InnerOf(t, p)
           d == N!Del(s, LK(p), LB(p))
       IN  IF s = Nil \/ ~d[2] THEN <<t, FALSE>>
           ELSE IF d[1] = Nil THEN <<O!Del(t, MK(p), MB(p))[1], TRUE>>
           ELSE <<O!Ins(t, Leaf(MK(p), MB(p), Inner(d[1]))), TRUE>>

(* Listing: <<network, value>>. *)
ListNode(x) ==   \* x = <<key, bits, value>> of the outer trie
  IF ~IsInner(x[3]) THEN <<<<<<x[1] * Pow2(WL), x[2]>>, x[3][2]>>>>
  ELSE LET l == N!List(x[3][2])
       IN  [i \in 1..Len(l) |-> <<<<MaskW(x[1] * Pow2(WL) + l[i][1], x[2] + l[i][2]), x[2] + l[i][2]>>, l[i][3]>>]
List(t) == FoldLeft(LAMBDA a, x : a \o ListNode(x), <<>>, O!List(t))

(* Networks which UpdateDescendants calls back with. *)
Called(t, p) ==
  LET x == O!Match(t, MK(p), MB(p), TRUE)
  IN  IF x = Nil THEN {}
      ELSE IF IsInner(O!Val(x))
      THEN LET y == N!Match(O!Val(x)[2], LK(p), LB(p), TRUE)
           IN  IF y = Nil THEN {}
               ELSE {<<MaskW(O!Key(x) * Pow2(WL) + z[1], WM + z[2]), WM + z[2]>> : z \in
                       {N!List(y)[i] : i \in 2..Len(N!List(y))}}
      ELSE UNION {{ListNode(z)[i][1] : i \in 1..Len(ListNode(z))} : z \in {O!List(x)[i] : i \in 2..Len(O!List(x))}}

RECURSIVE Age(_)
Age(t) == IF t = Nil THEN Nil
          ELSE <<O!Key(t), O!Bits(t), O!Leaf(t),
                 IF ~O!Leaf(t) THEN "-" ELSE IF IsInner(O!Val(t)) THEN Inner(N!Age(O!Val(t)[2])) ELSE Plain("o"),
                 Age(O!Chld(t, 0)), Age(O!Chld(t, 1))>>

-----------------------------------------------------------------------------
Content(t) == LET l == List(t) IN {l[i][1] : i \in 1..Len(l)}

Step(op, p) ==
  LET d    == IF op = "del" THEN Delete(tree, p) ELSE <<Insert(tree, p, "n"), TRUE>>
      old  == Content(tree)
      want == IF op = "del" THEN {q \in old : ~Inside(q, p)} ELSE old \cup {p}
      l    == List(d[1])
  IN  /\ Assert(Content(d[1]) = want /\ Len(l) = Cardinality(want), <<"content", op, p, tree, d>>)
      /\ Assert(\A i \in 1..Len(l) : /\ i > 1 => Lt(l[i - 1][1], l[i][1])
                                     /\ (l[i][2] = "n") = (op # "del" /\ l[i][1] = p), <<"listing", op, p, tree, l>>)
      /\ Assert(op = "del" => d[2] = (want # old), <<"flag", op, p, tree>>)
      /\ tree' = Age(d[1])
      /\ EMIT => PrintT("@e" \o ToJson(<<tree, op, p, Age(d[1]), d[2], l>>))

(* All strict descendants of a stored network get new values. *)
UpdateStep(p) ==
  LET c == Called(tree, p)
      l == List(tree)
  IN  /\ Assert(c = (IF p \in Content(tree) THEN {q \in Content(tree) \ {p} : Inside(q, p)} ELSE {}),
                <<"update", p, tree, c>>)
      /\ UNCHANGED tree
      /\ EMIT => PrintT("@e" \o ToJson(<<tree, "upd", p, tree, TRUE,
                          [i \in 1..Len(l) |-> <<l[i][1], IF l[i][1] \in c THEN "n" ELSE "o">>]>>))

Init == tree = Nil
Next ==
  \E p \in Nets :
    \/ \E op \in {"ins", "inp", "del"} :
         /\ op # "del" => Cardinality(Content(tree) \cup {p}) <= MaxN
         /\ Step(op, p)
    \/ VARIANT = "any" /\ UpdateStep(p)
Spec == Init /\ [][Next]_tree

-----------------------------------------------------------------------------
Longest(p) ==
  LET A == {q \in Content(tree) : Inside(p, q)}
  IN  IF A = {} THEN <<>> ELSE CHOOSE q \in A : \A o \in A : o[2] <= q[2]

(* Lookups in a tree where every network keeps itself as a value. *)
RECURSIVE LabelInner(_, _, _), Label(_)
LabelInner(t, k, b) ==
  IF t = Nil THEN Nil
  ELSE [t EXCEPT ![4] = IF t[3] THEN <<MaskW(k * Pow2(WL) + t[1], b + t[2]), b + t[2]>> ELSE @,
                 ![5] = LabelInner(t[5], k, b), ![6] = LabelInner(t[6], k, b)]
Label(t) ==
  IF t = Nil THEN Nil
  ELSE [t EXCEPT ![4] = IF ~t[3] THEN @
                        ELSE IF IsInner(@) THEN Inner(LabelInner(@[2], t[1], t[2]))
                        ELSE Plain(<<t[1] * Pow2(WL), t[2]>>),
                 ![5] = Label(t[5]), ![6] = Label(t[6])]
Lookups ==
  LET t == Label(tree)
  IN  \A p \in Nets : LET g == Get(t, p) IN IF Longest(p) = <<>> THEN g = <<>> ELSE g = <<Longest(p)>>

Structure == O!Shaped(tree) /\ \A x \in {O!List(tree)[i] : i \in 1..Len(O!List(tree))} :
               IsInner(x[3]) => x[3][2] # Nil /\ N!Shaped(x[3][2])

EmitState ==
  EMIT => PrintT("@s" \o ToJson(<<tree, [i \in 1..Len(AllNets) |-> <<AllNets[i], Longest(AllNets[i])>>]>>))
=============================================================================
