----------------------------- MODULE NameParser -----------------------------
(***************************************************************************)
(* The automaton of Label reading every text over Alphabet of at most      *)
(* MaxText bytes, one byte a step, against a grammar of tokens which knows *)
(* nothing about the automaton.  The texts with their meanings are printed *)
(* for the replay into package domain (lines "@n") when EMIT is set; the   *)
(* limits of sizes are small when only the design is checked.              *)
(***************************************************************************)
EXTENDS Label, TLC, Json

CONSTANTS Alphabet, MaxText, EMIT
VARIABLES text, st

SmallLabel == 2
SmallLabels == 2
SmallName == 5

-----------------------------------------------------------------------------
(* Grammar.  TokLen: length of the token at i, 0 if there is none. *)
Num(t, i) == (t[i] - 48) * 100 + (t[i + 1] - 48) * 10 + (t[i + 2] - 48)
TokLen(t, i) ==
  IF t[i] # Bsl THEN 1
  ELSE IF i = Len(t) THEN 0
  ELSE IF ~IsDigit(t[i + 1]) THEN 2
  ELSE IF i + 3 <= Len(t) /\ (\A j \in 1..3 : IsDigit(t[i + j])) /\ Num(t, i + 1) <= 255 THEN 4
  ELSE 0
TokVal(t, i) == Up(CASE TokLen(t, i) = 1 -> t[i] [] TokLen(t, i) = 2 -> t[i + 1] [] OTHER -> Num(t, i + 1))

(* Tokens <<bytes of the text, separates labels, value>>, or NoTokens. *)
NoTokens == <<<<0>>>>
RECURSIVE Tokens(_, _)
Tokens(t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE IF TokLen(t, i) = 0 THEN NoTokens
  ELSE LET r == Tokens(t, i + TokLen(t, i))
       IN  IF r = NoTokens THEN r
           ELSE <<<<TokLen(t, i), TokLen(t, i) = 1 /\ t[i] = Dot, TokVal(t, i)>>>> \o r

(* Tokens between separators are labels; the last separator may end the text. *)
Cut(toks) ==
  LET seps == {i \in 1..Len(toks) : toks[i][2]}
      ends == SortSet(seps \cup {Len(toks) + 1}, LAMBDA a, b : a < b)
      part(k) == LET from == IF k = 1 THEN 1 ELSE ends[k - 1] + 1
                 IN  [j \in 1..(ends[k] - from) |-> toks[from + j - 1][3]]
      all == [k \in 1..Len(ends) |-> part(k)]
  IN  IF Len(toks) > 0 /\ toks[Len(toks)][2] THEN SubSeq(all, 1, Len(all) - 1) ELSE all

Valid(t) ==
  \/ t = <<>>
  \/ t = <<Dot>>
  \/ LET k == Tokens(t, 1)
     IN  /\ k # NoTokens
         /\ LET c == Cut(k)
            IN  /\ \A i \in 1..Len(c) : Len(c[i]) \in 1..MaxLabel
                /\ Len(c) <= MaxLabels
                /\ Encoded(c) <= MaxName

-----------------------------------------------------------------------------
Init == text = <<>> /\ st = N0
Next == /\ Len(text) < MaxText
        /\ \E c \in Alphabet : text' = Append(text, c) /\ st' = NStep(st, c)
Spec == Init /\ [][Next]_<<text, st>>

AutomatonRuns == st = NRun(text)
Agree == (NameErrors(text) = {}) = Valid(text)
SameLabels ==
  Valid(text) =>
    NameLabels(text) = (IF text \in {<<>>, <<Dot>>} THEN <<>> ELSE Reverse(Cut(Tokens(text, 1))))
LabelAgrees ==
  LET o == LabelOutcome(text)
      k == Tokens(text, 1)
  IN  o.kind # {"dot"} =>
        /\ ("escape" \in o.kind) = (k = NoTokens)
        /\ o.kind = {"ok"} =>
             o.bytes = LET b == [i \in 1..Len(k) |-> k[i][3]]
                       IN IF k # <<>> /\ k[Len(k)][2] THEN SubSeq(b, 1, Len(b) - 1) ELSE b
RoundTrip ==
  LET o == LabelOutcome(text)
  IN  o.kind = {"ok"} => ReadableLabel(Human(o.bytes), o.bytes)
NameRoundTrip == NameErrors(text) = {} => ReadableName(HumanName(NameLabels(text)), NameLabels(text))

EmitText ==
  EMIT => LET o == LabelOutcome(text)
          IN  PrintT("@n" \o ToJson(<<text, SetToSeq(NameErrors(text)),
                                      IF NameErrors(text) = {} THEN NameLabels(text) ELSE <<>>,
                                      SetToSeq(o.kind), o.bytes>>))
=============================================================================
