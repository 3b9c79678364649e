----------------------------- MODULE NameTrace ------------------------------
(***************************************************************************)
(* Answers of package domain, recorded by the harness, against the rules   *)
(* of Label.  Every event is one text or label and everything the package  *)
(* says about it.  An event which can't be explained is a deadlock.        *)
(***************************************************************************)
EXTENDS Label, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
TR == Traces[t]

(* MakeNameFromString(x): err is "" or kind of the error, labels as GetLabels gives them. *)
NameOK(e) ==
  LET bad == NameErrors(e.x)
  IN  IF bad # {} THEN e.err \in bad ELSE e.err = "" /\ e.labels = NameLabels(e.x)

(* MakeLabel(x) = y *)
LabelOK(e) ==
  LET o == LabelOutcome(e.x)
  IN  IF o.kind = {"ok"} THEN e.err = "" /\ e.y = o.bytes
      ELSE o.kind = {"dot"} \/ e.err \in o.kind

(* y = MakeHumanReadableLabel(x), z = MakeLabel(y) for a normalized label x *)
HumanOK(e) == e.err = "" /\ ReadableLabel(e.y, e.x) /\ e.z = e.x

(***************************************************************************)
(* Accessors of a valid name: str - String(), labels - GetLabels,          *)
(* chain - answers <<offset, label, next offset>> of GetLabel from 0 until *)
(* it isn't positive, outs - <<offset, answer>> for offsets which aren't   *)
(* in the name, stops - <<k, calls, error is given back>> for a callback   *)
(* which fails at call k, refl - <<labels, text>> of names extracted from  *)
(* a name, a pointer to it and its text.                                   *)
(***************************************************************************)
Bytes(labels) == Encoded(labels)
WalkOK(e) ==
  LET ls == NameLabels(e.x)
      n  == Len(ls)
  IN  /\ e.str = e.x
      /\ e.labels = ls
      /\ IF n = 0 THEN Len(e.chain) = 1 /\ e.chain[1][2] = <<>> /\ e.chain[1][3] = 0
         ELSE /\ Len(e.chain) = n
              /\ \A i \in 1..n : /\ e.chain[i][2] = ls[i]
                                 /\ IF i = n THEN e.chain[i][3] = 0 ELSE e.chain[i][3] > e.chain[i][1]
      /\ \A i \in 1..Len(e.outs) :
           LET o == e.outs[i][1]
           IN  (o < 0 \/ (o > 0 /\ o >= Bytes(ls))) => e.outs[i][2] = -1
      /\ \A i \in 1..Len(e.stops) :
           LET k == e.stops[i][1]
           IN  e.stops[i] = IF k <= n THEN <<k, k, TRUE>> ELSE <<k, n, FALSE>>
      /\ \A i \in 1..Len(e.refl) : e.refl[i] = <<ls, e.x>>

Fits(e) ==
  CASE e.e = "name"  -> NameOK(e)
    [] e.e = "label" -> LabelOK(e)
    [] e.e = "human" -> HumanOK(e)
    [] e.e = "walk"  -> NameErrors(e.x) = {} => WalkOK(e)
    \* a text inside of a reflected value: panic exactly when the text is no name
    [] e.e = "wrap"  -> \A i \in 1..Len(e.panics) : e.panics[i] = (NameErrors(e.x) # {})
    \* reflected values which wrap neither a name nor a text
    [] e.e = "alien" -> \A i \in 1..Len(e.panics) : e.panics[i]
    [] e.e = "calm"  -> TRUE     \* whatever the answer is, there is one
    [] OTHER -> FALSE

Init == t \in 1..Len(Traces) /\ l = 0
Explain == l < Len(TR.ev) /\ Fits(TR.ev[l + 1]) /\ l' = l + 1 /\ UNCHANGED t
Done == l = Len(TR.ev) /\ UNCHANGED <<t, l>>
Spec == Init /\ [][Explain \/ Done]_<<t, l>>
=============================================================================
