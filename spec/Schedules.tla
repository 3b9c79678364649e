----------------------------- MODULE Schedules ------------------------------
(***************************************************************************)
(* All the ways to interleave several enumerations with each other and     *)
(* with derivation of versions, as seen by users.  Entries are the numbers *)
(* of keys 1 < 2 < 3; a schedule is printed when it's complete and then    *)
(* carried out on every real tree.                                         *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json

CONSTANTS NStr, NDerive, NKeys, EMIT
VARIABLES ver, s, h

vars == <<ver, s, h>>
Key == 1..NKeys
Base == {k \in Key : k % 2 = 1}
Off == [v |-> 0, last |-> 0, over |-> FALSE]

Init == ver = <<Base>> /\ s = [i \in 1..NStr |-> Off] /\ h = <<>>

Did(x) == h' = Append(h, x)
(* Streams are opened in order of their numbers: others are symmetric. *)
Open(i, v) ==
  /\ s[i].v = 0 /\ (i > 1 => s[i - 1].v # 0)
  /\ s' = [s EXCEPT ![i].v = v]
  /\ Did(<<"open", i, v, 0>>) /\ UNCHANGED ver

Left(i) == {k \in ver[s[i].v] : k > s[i].last}
Take(i) ==
  /\ s[i].v # 0 /\ ~s[i].over
  /\ IF Left(i) = {} THEN s' = [s EXCEPT ![i].over = TRUE] /\ Did(<<"next", i, 0, 0>>)
     ELSE LET k == SetMin(Left(i)) IN s' = [s EXCEPT ![i].last = k] /\ Did(<<"next", i, k, 0>>)
  /\ UNCHANGED ver

Ins(v, k) == /\ k \notin ver[v] /\ ver' = Append(ver, ver[v] \cup {k})
             /\ Did(<<"ins", v, k, Len(ver) + 1>>) /\ UNCHANGED s
Del(v, k) == /\ k \in ver[v] /\ ver' = Append(ver, ver[v] \ {k})
             /\ Did(<<"del", v, k, Len(ver) + 1>>) /\ UNCHANGED s

Complete == \A i \in 1..NStr : s[i].over
Next ==
  \/ \E i \in 1..NStr : Take(i) \/ \E v \in 1..Len(ver) : Open(i, v)
  \/ /\ ~Complete /\ Len(ver) <= NDerive
     /\ \E v \in 1..Len(ver), k \in Key : Ins(v, k) \/ Del(v, k)
Spec == Init /\ [][Next]_vars

Emit == (EMIT /\ Complete) => PrintT("@w " \o ToJson(h))
=============================================================================
