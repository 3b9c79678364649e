------------------------------ MODULE StoreMC -------------------------------
(* Exhaustive check of Store over prefixes of up to 2 bits: 7 classes in    *)
(* pre-order: <<>>=1, 0=2, 00=3, 01=4, 1=5, 10=6, 11=7.                     *)
EXTENDS Store
CONSTANTS Values, MaxSize, NCls

Pfx == <<<<>>, <<0>>, <<0, 0>>, <<0, 1>>, <<1>>, <<1, 0>>, <<1, 1>>>>
Cls == 1..NCls
Under(c) == {x \in Cls : Pre(Pfx[c], Pfx[x])}
Over(c) == SortSet({x \in Cls : Pre(Pfx[x], Pfx[c])}, LAMBDA a, b : Len(Pfx[a]) > Len(Pfx[b]))

Next ==
  \/ \E d \in Slot : New(d)
  \/ \E s \in Slot : Forget(s)
  \/ \E s, d \in Slot, c \in Cls, v \in Values : Insert(s, d, c, v)
  \/ \E s \in Slot, c \in Cls, v \in Values : Inplace(s, c, v)
  \/ \E s, d \in Slot, c \in Cls, ok \in BOOLEAN : Delete(s, d, Under(c), ok)
  \/ \E s, d \in Slot, c \in Cls : Focus(s, d, IF c \in DOMAIN st[s].m THEN Under(c) ELSE {})
  \/ \E s \in Slot, c \in Cls :
       LET t == IF c \in DOMAIN st[s].m THEN (Under(c) \ {c}) \cap DOMAIN st[s].m ELSE {}
       IN  \E v \in Values, f \in SUBSET t : Update(s, c, Under(c), t, [x \in f |-> v])

Spec == StoreInit /\ [][Next]_st
Small == \A s \in Slot : Cardinality(DOMAIN st[s].m) <= MaxSize

(* Nearest is the value of the longest stored class which contains the key, *)
(* and removal of what contains it is what makes a lookup fail.             *)
NearestOK ==
  \A s \in Slot : \A c \in Cls :
    LET m == st[s].m
        A == {x \in DOMAIN m : Pre(Pfx[x], Pfx[c])}
    IN  /\ (Nearest(m, Over(c)) = Absent) <=> A = {}
        /\ A # {} => \E x \in A : /\ Nearest(m, Over(c)) = m[x]
                                  /\ \A y \in A : Len(Pfx[y]) <= Len(Pfx[x])
        /\ \A v \in Values : /\ Exact(Put(m, c, v), c) = v
                             /\ \A o \in Cls \ {c} : Exact(Put(m, c, v), o) = Exact(m, o)
        /\ Exact(Without(m, Under(c)), c) = Absent
        /\ \A o \in Cls \ Under(c) : Exact(Without(m, Under(c)), o) = Exact(m, o)
=============================================================================
