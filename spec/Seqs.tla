-------------------------------- MODULE Seqs --------------------------------
(* Small sequence vocabulary shared by all modules of this specification.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

(* a is a prefix of b (possibly equal) *)
Pre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* Three-way comparison of integer sequences: first difference decides and  *)
(* a proper prefix precedes its extensions.                                 *)
CmpInts(a, b) ==
  IF a = b THEN 0
  ELSE LET n == Min2(Len(a), Len(b))
           D == {i \in 1..n : a[i] # b[i]}
       IN  IF D = {} THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
           ELSE LET i == SetMin(D) IN IF a[i] < b[i] THEN -1 ELSE 1

(* Label order: shorter labels first, equal lengths in byte order. *)
CmpLabel(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpInts(a, b)

(* Label sequences, root-most label first: a domain precedes its subdomains,*)
(* siblings are in label order.                                             *)
CmpLabels(a, b) ==
  IF a = b THEN 0
  ELSE LET n == Min2(Len(a), Len(b))
           D == {i \in 1..n : a[i] # b[i]}
       IN  IF D = {} THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
           ELSE LET i == SetMin(D) IN CmpLabel(a[i], b[i])

(* Insertion position/sorting helpers over a finite set with strict order.  *)
SortSet(S, Lt(_, _)) == SetToSortSeq(S, Lt)

Pow2(n) == 2^n
=============================================================================
