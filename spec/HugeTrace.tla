----------------------------- MODULE HugeTrace ------------------------------
(***************************************************************************)
(* Trace validation of histories with more entries than 16 bits can count. *)
(* Keys are 0..n-1 in the order of listings, none but the ones before it   *)
(* contain a key; operations come in batches told by arithmetic: all keys  *)
(* i with i % m = r, the value stored for i being 1 + (i + x) % 97.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, st
TR == Traces[t]
N == TR.ev[1].n
Tuple(f) == f \o <<>>
None == <<>>
Holds(x) == x = TRUE

Picked(e, c) == (c - 1) % e.m = e.r     \* entry c of a content is for key c - 1
Val(c, x) == 1 + ((c - 1 + x) % 97)
Put(m, e) == Tuple([c \in 1..N |-> IF Picked(e, c) THEN Val(c, e.x) ELSE m[c]])

(* Who contains key i: names have their parent, networks of radix trees the wider one. *)
Group == CASE TR.kind = "radix64" -> 101 [] TR.kind = "dom" -> 1001 [] OTHER -> 1
Up(c) == c - ((c - 1) % Group)
Sweeps == TR.kind = "radix64"
Cut(m, e) == Tuple([c \in 1..N |-> IF Picked(e, c) \/ (Sweeps /\ Picked(e, Up(c))) THEN 0 ELSE m[c]])

RECURSIVE Total(_, _, _)
Total(f, a, b) ==    \* sum of f[a..b]
  IF a > b THEN 0 ELSE IF a = b THEN f[a] ELSE LET x == (a + b) \div 2 IN Total(f, a, x) + Total(f, x + 1, b)
Count(m) == Total([c \in 1..N |-> IF m[c] > 0 THEN 1 ELSE 0], 1, N)

(* How many deletions of the batch find something; in tries those below a deleted one may or may not be first. *)
CutOK(m, e) ==
  LET own == Total([c \in 1..N |-> IF Picked(e, c) /\ m[c] > 0 THEN 1 ELSE 0], 1, N)
  IN  IF Sweeps THEN e.n <= Count(m) ELSE e.n = own

Find(m, i) == LET c == i + 1 IN IF m[c] > 0 THEN m[c] ELSE IF m[Up(c)] > 0 THEN m[Up(c)] ELSE -1

(* Runs [first key, value, number]. *)
RunOK(m, p, i) ==
  LET r == p[i] IN
  /\ r[1] >= 0 /\ r[1] + r[3] <= N
  /\ \A j \in 0..(r[3] - 1) : m[r[1] + j + 1] = r[2] + j /\ r[2] + j > 0
  /\ i < Len(p) => r[1] + r[3] <= p[i + 1][1]
ListingOK(m, p) ==
  /\ \A i \in 1..Len(p) : RunOK(m, p, i)
  /\ Total([i \in 1..Len(p) |-> p[i][3]], 1, Len(p)) = Count(m)

Explained(e) ==
  CASE e.e = "new" -> st' = [st EXCEPT ![e.d] = Tuple([c \in 1..N |-> 0])]
    [] e.e \in {"ins", "inp"} -> st' = [st EXCEPT ![e.d] = Put(st[e.s], e)]
    [] e.e = "del" -> Holds(CutOK(st[e.s], e)) /\ st' = [st EXCEPT ![e.d] = Cut(st[e.s], e)]
    [] e.e = "look" -> Holds(\A i \in 1..Len(e.q) : e.q[i][2] = Find(st[e.s], e.q[i][1])) /\ UNCHANGED st
    [] e.e = "enum" -> Holds(ListingOK(st[e.s], e.p)) /\ UNCHANGED st
    [] OTHER -> FALSE

Init == t \in 1..Len(Traces) /\ l = 0 /\ st = [s \in 1..3 |-> None]
Explain == l < Len(TR.ev) /\ Explained(TR.ev[l + 1]) /\ l' = l + 1 /\ UNCHANGED t
Done == l = Len(TR.ev) /\ UNCHANGED <<t, l, st>>
Spec == Init /\ [][Explain \/ Done]_<<t, l, st>>
View == <<t, l>>
Alias == [t |-> t, l |-> l]
=============================================================================
