------------------------------- MODULE RBConc -------------------------------
(***************************************************************************)
(* Several goroutines work with the same published version of a red-black  *)
(* tree at once: they look keys up, enumerate and derive new versions,     *)
(* which are published when they are ready and may be used by others.      *)
(* Steps of the loops interleave in every possible way on one heap.        *)
(*                                                                         *)
(* A cell belongs to the process which has made it until its version is    *)
(* published.  No step may write to a cell of anybody else (then there are *)
(* no races however fine steps are split) and everyone has to get the      *)
(* answer he would get alone.  With INPLACE processes may also insert in   *)
(* place, what has to break the rules: exclusive access is asked for that. *)
(*                                                                         *)
(* While the rules hold a state is up to numbers of cells determined by    *)
(* how far processes have got (View).                                      *)
(***************************************************************************)
EXTENDS RBOps, TLC

CONSTANTS Proc, Reader, MaxN, INPLACE

VARIABLES base, h, roots, cont, pr, bad
vars == <<base, h, roots, cont, pr, bad>>

(* All red-black trees of n keys. *)
RECURSIVE Coloured(_)
Coloured(n) == IF n = 0 THEN {<<>>}
               ELSE UNION {{<<c, x, y>> : c \in BOOLEAN, x \in Coloured(i), y \in Coloured(n - 1 - i)} : i \in 0..(n - 1)}
RBTrees(n) == {t \in Coloured(n) : (t = <<>> \/ ~t[1]) /\ NoRedRed(t) /\ BlackHeight(t) # -1}

WithKey(c, key) ==
  SelectSeq(c, LAMBDA x : x[1] < key) \o <<<<key, "n">>>> \o SelectSeq(c, LAMBDA x : x[1] > key)
WithoutKey(c, key) == SelectSeq(c, LAMBDA x : x[1] # key)
Has(c, key) == \E i \in 1..Len(c) : c[i][1] = key

Idle == [pc |-> "idle", op |-> "", key |-> 0, root |-> 0, s |-> <<>>, f |-> 0, own |-> {}, k |-> 0, out |-> <<>>]

Init ==
  /\ base \in UNION {RBTrees(n) : n \in 0..MaxN}
  /\ LET ld == Load(base, <<>>, 0)
     IN  h = ld.h /\ roots = <<ld.p>> /\ cont = <<InOrder(ld.h, ld.p)>>
  /\ pr = [p \in Proc \cup Reader |-> Idle]
  /\ bad = FALSE

(* What a step of a process has written outside of its own cells. *)
Fault(p, h1) == \E i \in 1..Len(h) : i \notin pr[p].own /\ h[i] # h1[i]
Owned(p, h1) == pr[p].own \cup {i \in 1..Len(h1) : i > Len(h)}

NoH(s) == [x \in DOMAIN s \ {"h"} |-> s[x]]
WithH(s) == [x \in DOMAIN s \cup {"h"} |-> IF x = "h" THEN h ELSE s[x]]

Run(p, h1, q) ==
  /\ h' = h1
  /\ bad' = (bad \/ Fault(p, h1))
  /\ pr' = [pr EXCEPT ![p] = [q EXCEPT !.own = Owned(p, h1), !.k = @ + 1]]

Publish(p, h1, root, ok) ==
  LET c == cont[pr[p].root]
      q == pr[p]
  IN  /\ h' = h1
      /\ bad' = (bad \/ Fault(p, h1)
                 \/ InOrder(h1, root) # (IF q.op = "del" THEN WithoutKey(c, q.key) ELSE WithKey(c, q.key))
                 \/ (q.op = "del" /\ ok # Has(c, q.key)))
      /\ roots' = Append(roots, root)
      /\ cont' = Append(cont, InOrder(h1, root))
      /\ pr' = [pr EXCEPT ![p] = [Idle EXCEPT !.pc = "done", !.op = q.op, !.key = q.key, !.root = q.root]]
      /\ UNCHANGED base

Keys == 1..(2 * MaxN + 1)
Ops == IF INPLACE THEN {"ins", "del", "inp"} ELSE {"ins", "del"}

Start(p) ==
  /\ pr[p].pc = "idle"
  /\ \E r \in 1..Len(roots), key \in Keys, op \in Ops :
       /\ key <= 2 * Size(base) + 1
       /\ LET q == [Idle EXCEPT !.pc = "run", !.op = op, !.key = key, !.root = r]
              s == IF op = "del" THEN DeleteStart(h, roots[r]) ELSE InsertStart(h, roots[r])
          IN  Run(p, s.h, [q EXCEPT !.s = NoH(s), !.f = s.n])
  /\ UNCHANGED <<base, roots, cont>>

Step(p) ==
  /\ pr[p].pc = "run"
  /\ LET q == pr[p]
         s == WithH(q.s)
     IN  IF q.op # "del" /\ roots[q.root] = 0
         THEN LET x == InsertOp(h, 0, q.key, TRUE) IN Publish(p, x.h, x.p, TRUE)
         ELSE IF (IF q.op = "del" THEN DeleteDone(s) ELSE InsertDone(s))
         THEN LET x == IF q.op = "del" THEN DeleteFinish(s, q.f) ELSE InsertFinish(s, q.f)
              IN  Publish(p, x.h, x.p, IF q.op = "del" THEN x.ok ELSE TRUE)
         ELSE /\ LET x == IF q.op = "del" THEN DeleteStep(s, q.key) ELSE InsertStep(s, q.key, q.op = "ins")
                 IN  Run(p, x.h, [q EXCEPT !.s = NoH(x)])
              /\ UNCHANGED <<base, roots, cont>>

(* A reader walks over all of a version with a stack, one cell a step, which covers lookups too. *)
Open(p) ==
  /\ pr[p].pc = "idle"
  /\ \E r \in 1..Len(roots) :
       pr' = [pr EXCEPT ![p] = [Idle EXCEPT !.pc = "run", !.root = r, !.s = <<>>, !.f = roots[r]]]
  /\ UNCHANGED <<base, h, roots, cont, bad>>

Read(p) ==
  /\ pr[p].pc = "run"
  /\ LET q == pr[p] IN
     IF q.f # 0 THEN pr' = [pr EXCEPT ![p].s = Append(@, q.f), ![p].f = h[q.f].ch[1], ![p].k = @ + 1] /\ UNCHANGED bad
     ELSE IF q.s # <<>>
     THEN LET n == q.s[Len(q.s)] IN
          /\ pr' = [pr EXCEPT ![p].s = SubSeq(@, 1, Len(@) - 1), ![p].f = h[n].ch[2], ![p].k = @ + 1,
                              ![p].out = Append(@, <<h[n].k, h[n].v>>)]
          /\ UNCHANGED bad
     ELSE /\ pr' = [pr EXCEPT ![p] = [Idle EXCEPT !.pc = "done", !.root = q.root]]
          /\ bad' = (bad \/ q.out # cont[q.root])
  /\ UNCHANGED <<base, h, roots, cont>>

Next == \/ \E p \in Proc : Start(p) \/ Step(p)
        \/ \E p \in Reader : Open(p) \/ Read(p)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Isolated == ~bad
(* Published versions stay what they were. *)
Frozen == \A r \in 1..Len(roots) : InOrder(h, roots[r]) = cont[r]

View == <<base, cont, [p \in Proc \cup Reader |-> <<pr[p].pc, pr[p].op, pr[p].key, pr[p].root, pr[p].k>>], bad>>
=============================================================================
