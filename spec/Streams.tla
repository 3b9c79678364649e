------------------------------ MODULE Streams -------------------------------
(***************************************************************************)
(* How enumerations work: every stream is a goroutine which walks a tree   *)
(* and sends entries to an unbuffered channel; for every level of a tree   *)
(* of trees (domain names, networks) it starts one more goroutine which    *)
(* sends subtrees of this level.  Consumers take entries when they like;   *)
(* meanwhile new versions are derived by copying.                          *)
(*                                                                         *)
(* Nodes live in a heap: [v, kids] where v is an entry (0 is none) and     *)
(* kids are the subtrees.  A derivation puts a changed copy of the root    *)
(* next to it.  With MUTATE it changes a cell in place and with NOCLOSE    *)
(* inner channels aren't closed: the properties have to fail then.         *)
(***************************************************************************)
EXTENDS Seqs

CONSTANTS Str, MaxDerive, MUTATE, NOCLOSE, SHAPE

VARIABLES heap, roots, s

vars == <<heap, roots, s>>

N(v, kids) == [v |-> v, kids |-> kids]
Heap0 == CASE SHAPE = 1 -> <<N(1, <<2, 3>>), N(2, <<4>>), N(3, <<>>), N(4, <<>>)>>
           [] SHAPE = 2 -> <<N(0, <<2>>), N(0, <<3>>), N(1, <<4>>), N(2, <<>>)>>
           [] OTHER     -> <<N(0, <<>>)>>

RECURSIVE Content(_, _), Contents(_, _)
Content(h, n) == (IF h[n].v > 0 THEN <<h[n].v>> ELSE <<>>) \o Contents(h, h[n].kids)
Contents(h, ks) == IF ks = <<>> THEN <<>> ELSE Content(h, Head(ks)) \o Contents(h, Tail(ks))

(* at: what the walker does in the node; inner: the goroutine sending kids. *)
Frame(n) == [n |-> n, at |-> "val", pos |-> 1, inner |-> "none"]
Idle == [ph |-> "idle", stack |-> <<>>, want |-> FALSE, got |-> <<>>, exp |-> <<>>, over |-> FALSE, left |-> 0]

Init == heap = Heap0 /\ roots = {1} /\ s = [i \in Str |-> Idle]

Top(i) == s[i].stack[Len(s[i].stack)]
SetTop(x, f) == [x EXCEPT !.stack = [@ EXCEPT ![Len(@)] = f]]

(* left: goroutines which have been started and haven't ended. *)
Open(i) == /\ s[i].ph = "idle"
           /\ \E r \in roots : s' = [s EXCEPT ![i] =
                [Idle EXCEPT !.ph = "run", !.stack = <<Frame(r)>>, !.exp = Content(heap, r), !.left = 1]]
           /\ UNCHANGED <<heap, roots>>

Ask(i) == /\ s[i].ph \in {"run", "closed"} /\ ~s[i].want /\ ~s[i].over
          /\ s' = [s EXCEPT ![i].want = TRUE]
          /\ UNCHANGED <<heap, roots>>

(* The walker hands its entry over to the waiting consumer. *)
Value(i) ==
  /\ s[i].ph = "run" /\ s[i].stack # <<>> /\ Top(i).at = "val"
  /\ LET v == heap[Top(i).n].v
         x == SetTop(s[i], [Top(i) EXCEPT !.at = "kids", !.inner = "run"])
     IN  IF v = 0 THEN s' = [s EXCEPT ![i] = [x EXCEPT !.left = @ + 1]]
         ELSE /\ s[i].want
              /\ s' = [s EXCEPT ![i] = [x EXCEPT !.got = Append(@, v), !.want = FALSE, !.left = @ + 1]]
  /\ UNCHANGED <<heap, roots>>

(* An inner goroutine offers its next subtree or closes its channel and ends. *)
Inner(i, f) ==
  /\ f <= Len(s[i].stack)
  /\ LET fr == s[i].stack[f]
         more == fr.pos <= Len(heap[fr.n].kids)
     IN  \/ /\ fr.inner = "run" /\ more
            /\ s' = [s EXCEPT ![i].stack[f].inner = "send"]
         \/ /\ fr.inner = "run" /\ ~more /\ ~NOCLOSE
            /\ s' = [s EXCEPT ![i].stack[f].inner = "closed", ![i].left = @ - 1]
  /\ UNCHANGED <<heap, roots>>

(* The walker takes a subtree and goes down, or sees the end and goes up. *)
Walk(i) ==
  /\ s[i].ph = "run" /\ s[i].stack # <<>> /\ Top(i).at = "kids"
  /\ \/ /\ Top(i).inner = "send"
        /\ LET k == heap[Top(i).n].kids
               x == SetTop(s[i], [Top(i) EXCEPT !.inner = "run", !.pos = @ + 1])
           (* In a mutated node the place may be empty already. *)
           IN  s' = [s EXCEPT ![i] = IF Top(i).pos > Len(k) THEN x
                                     ELSE [x EXCEPT !.stack = Append(@, Frame(k[Top(i).pos]))]]
     \/ /\ Top(i).inner = "closed"
        /\ s' = [s EXCEPT ![i].stack = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<heap, roots>>

Close(i) ==
  /\ s[i].ph = "run" /\ s[i].stack = <<>>
  /\ s' = [s EXCEPT ![i].ph = "closed", ![i].left = @ - 1]
  /\ UNCHANGED <<heap, roots>>

Over(i) ==
  /\ s[i].ph = "closed" /\ s[i].want
  /\ s' = [s EXCEPT ![i].over = TRUE, ![i].want = FALSE]
  /\ UNCHANGED <<heap, roots>>

(* A version without the first subtree and with another entry at the top. *)
Derive ==
  /\ Len(heap) < Len(Heap0) + MaxDerive
  /\ \E r \in roots :
       LET c == N(10 + Len(heap), IF heap[r].kids = <<>> THEN <<>> ELSE Tail(heap[r].kids)) IN
       IF MUTATE THEN heap' = [Append(heap, c) EXCEPT ![r] = c] /\ roots' = roots \cup {Len(heap) + 1}
       ELSE heap' = Append(heap, c) /\ roots' = roots \cup {Len(heap) + 1}
  /\ UNCHANGED s

Work(i) == Value(i) \/ Walk(i) \/ Close(i) \/ Over(i) \/ \E f \in 1..4 : Inner(i, f)
Next == Derive \/ \E i \in Str : Open(i) \/ Ask(i) \/ Work(i)
Spec == Init /\ [][Next]_vars /\ \A i \in Str : WF_vars(Work(i)) /\ WF_vars(Ask(i))

-----------------------------------------------------------------------------
Exactly ==
  \A i \in Str : /\ Pre(s[i].got, s[i].exp)
                 /\ s[i].over => s[i].got = s[i].exp
(* No goroutine is left once the end has been seen. *)
Clean == \A i \in Str : s[i].over => s[i].left = 0
(* Whoever keeps asking gets everything and the end. *)
Ends == \A i \in Str : (s[i].ph # "idle") ~> s[i].over
=============================================================================
