----------------------------- MODULE DepthTrace -----------------------------
(***************************************************************************)
(* Measurements of the real search trees: after some history a tree of n   *)
(* entries took at most d comparisons to reach any key.  RBTree shows that *)
(* its trees keep 2 ^ Height <= (n + 1) ^ 2 (Logarithmic); the real trees   *)
(* have to keep it up to a constant number of comparisons.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
TR == Traces[t]

Slack == 2
(* d <= 2 * log2(n + 1) + Slack, for n < 2 ^ 13 *)
Within(n, d) == IF n = 0 \/ d <= Slack THEN TRUE
                ELSE IF d > 28 + Slack THEN FALSE
                ELSE 2 ^ (d - Slack) <= (n + 1) * (n + 1)

Init == t \in 1..Len(Traces) /\ l = 0
Explain == l < Len(TR.ev) /\ TR.ev[l + 1].e = "depth" /\ Within(TR.ev[l + 1].n, TR.ev[l + 1].d) /\ l' = l + 1 /\ UNCHANGED t
Done == l = Len(TR.ev) /\ UNCHANGED <<t, l>>
Spec == Init /\ [][Explain \/ Done]_<<t, l>>
=============================================================================
