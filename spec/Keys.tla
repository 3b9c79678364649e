-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* What keys mean: the canonical form of a key given as the caller gives   *)
(* it, the order of canonical forms, and containment.                      *)
(*                                                                         *)
(* A key is a record [f, b, n, m]: f = "b" raw bytes, "t" text, "n" radix  *)
(* key b with n significant bits, "i" network b with mask m, "a" address,  *)
(* "0" nil, "x" something which isn't a key at all.                        *)
(* A canonical form is a sequence: bytes, bits (after a family mark for    *)
(* networks) or labels, root-most first.  One key contains another exactly *)
(* when its canonical form is a prefix of the other's.                     *)
(***************************************************************************)
EXTENDS Label, TLC

Bad == <<-1>>

BitsOf(b, n) == [i \in 1..n |-> (b[((i - 1) \div 8) + 1] \div (2 ^ (7 - ((i - 1) % 8)))) % 2]

Clamp(n, w) == IF n < 0 THEN 0 ELSE IF n > w THEN w ELSE n

(* Number of leading ones of a mask, or -1 if it isn't contiguous. *)
Ones(m) ==
  LET bits == BitsOf(m, 8 * Len(m))
      k    == Cardinality({i \in 1..Len(bits) : bits[i] = 1})
  IN  IF \A i \in 1..k : bits[i] = 1 THEN k ELSE -1

Mapped(b) == Len(b) = 16 /\ \A i \in 1..12 : b[i] = (IF i > 10 THEN 255 ELSE 0)

CanonIP(k) ==
  CASE k.f = "i" -> IF Len(k.b) = Len(k.m) /\ Len(k.b) \in {4, 16} /\ Ones(k.m) >= 0
                    THEN <<IF Len(k.b) = 4 THEN 4 ELSE 6>> \o BitsOf(k.b, Ones(k.m))
                    ELSE Bad
    [] k.f = "a" -> IF Len(k.b) = 4 THEN <<4>> \o BitsOf(k.b, 32)
                    ELSE IF Mapped(k.b) THEN <<4>> \o BitsOf(SubSeq(k.b, 13, 16), 32)
                    ELSE IF Len(k.b) = 16 THEN <<6>> \o BitsOf(k.b, 128)
                    ELSE Bad
    [] OTHER -> Bad

CanonStr(cmp, b) ==
  CASE cmp = "fold"  -> [i \in 1..Len(b) |-> Up(b[i])]
    [] cmp = "first" -> SubSeq(b, 1, Min2(1, Len(b)))
    [] cmp = "one"   -> <<>>
    [] OTHER         -> b

BadOf(kind) == IF kind = "dom" THEN <<Bad>> ELSE Bad

Canon(kind, cmp, k) ==
  CASE k.f = "x" -> BadOf(kind)
    [] kind = "str"   -> CanonStr(cmp, k.b)
    [] kind = "label" -> IF k.f = "b" THEN k.b ELSE LabelOutcome(k.b).bytes
    [] kind = "radix32" -> BitsOf(k.b, Clamp(k.n, 32))
    [] kind = "radix64" -> BitsOf(k.b, Clamp(k.n, 64))
    [] kind = "ip"    -> CanonIP(k)
    [] kind = "dom"   -> NameLabels(k.b)

Cmp(kind, cmp, x, y) ==
  CASE kind = "str" /\ cmp = "rev" -> -CmpInts(x, y)
    [] kind = "str" /\ cmp = "len" -> CmpLabel(x, y)
    [] kind = "label"              -> CmpLabel(x, y)
    [] kind = "dom"                -> CmpLabels(x, y)
    [] OTHER                       -> CmpInts(x, y)

(* Kinds where a stored key answers for everything it contains. *)
Covers(kind) == kind \in {"radix32", "radix64", "ip", "dom"}
(* Kinds where deletion of a key takes everything it contains. *)
Sweeps(kind) == kind \in {"radix32", "radix64", "ip"}

(* Listed keys have a form of their own. *)
Listed(kind, k, canon) ==
  CASE kind = "label" -> IF k.f = "b" THEN k.b = canon ELSE ReadableLabel(k.b, canon)
    [] kind = "dom"   -> ReadableName(k.b, canon) /\ (canon = <<>> => k.b = <<>>)
    [] kind = "radix32" -> Len(k.b) = 4 /\ k.n \in 0..32
    [] kind = "radix64" -> Len(k.b) = 8 /\ k.n \in 0..64
    [] kind = "ip"    -> /\ k.f = "i" /\ canon # Bad
                         /\ \A i \in 1..Len(k.b) : \A j \in 0..7 :
                              (k.m[i] \div (2^j)) % 2 = 0 => (k.b[i] \div (2^j)) % 2 = 0
    [] OTHER -> TRUE
=============================================================================
