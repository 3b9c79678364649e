-------------------------------- MODULE Label --------------------------------
(***************************************************************************)
(* Text <-> label/name rules of package domain.                            *)
(*                                                                         *)
(* The text of a name is scanned by one automaton (NStep), one transition  *)
(* per byte.  Name(text) gives the meaning of the text: either the labels, *)
(* root-most first, or the set of error kinds which the text deserves.     *)
(* NameParser.tla runs the automaton as a state machine and compares it    *)
(* with an independent token grammar for every short text.                 *)
(***************************************************************************)
EXTENDS Seqs

MaxLabel  == 63      \* bytes in a label
MaxLabels == 127     \* labels in a name
MaxName   == 255     \* bytes of length-prefixed labels in a name

Dot   == 46
Bsl   == 92
IsDigit(c) == c >= 48 /\ c <= 57
Up(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Low(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c

(***************************************************************************)
(* Automaton state: mode "reg" | "esc" | "d2" | "d3"; code accumulates a   *)
(* decimal escape; cur is the label being read; raw counts its characters; *)
(* done: finished labels in text order; empty and bad: an empty label or a *)
(* malformed escape has been met.  After a malformed escape the byte which *)
(* doesn't fit is read as a regular one.                                   *)
(***************************************************************************)
N0 == [mode |-> "reg", code |-> 0, cur |-> <<>>, raw |-> 0, done |-> <<>>, empty |-> FALSE, bad |-> FALSE]

NEmit(st, c) == [st EXCEPT !.cur = Append(@, Up(c)), !.raw = @ + 1, !.mode = "reg"]

NRegular(st, c) ==
  CASE c = Dot -> IF st.raw = 0 THEN [st EXCEPT !.empty = TRUE]
                  ELSE [st EXCEPT !.done = Append(@, st.cur), !.cur = <<>>, !.raw = 0]
    [] c = Bsl -> [st EXCEPT !.mode = "esc", !.raw = @ + 1]
    [] OTHER   -> NEmit(st, c)

NMalformed(st, c) == NRegular([st EXCEPT !.mode = "reg", !.bad = TRUE], c)

NStep(st, c) ==
  CASE st.mode = "reg" -> NRegular(st, c)
    [] st.mode = "esc" /\ ~IsDigit(c) -> NEmit(st, c)
    [] st.mode = "esc" -> IF c > 50 THEN NMalformed(st, c)
                          ELSE [st EXCEPT !.mode = "d2", !.code = (c - 48) * 100, !.raw = @ + 1]
    [] st.mode = "d2" -> IF ~IsDigit(c) \/ st.code + (c - 48) * 10 > 255 THEN NMalformed(st, c)
                         ELSE [st EXCEPT !.mode = "d3", !.code = @ + (c - 48) * 10, !.raw = @ + 1]
    [] st.mode = "d3" -> IF ~IsDigit(c) \/ st.code + (c - 48) > 255 THEN NMalformed(st, c)
                         ELSE NEmit(st, st.code + (c - 48))

NRun(text) == FoldLeft(NStep, N0, text)

Encoded(labels) == FoldLeft(LAMBDA a, l : a + 1 + Len(l), 0, labels)


(* Every rule which the text breaks; {} means that the text is a name.  *)
NameErrors(text) ==
  IF text = <<>> \/ text = <<Dot>> THEN {}
  ELSE LET st  == NRun(text)
           lbs == IF st.raw > 0 THEN Append(st.done, st.cur) ELSE st.done
       IN  (IF st.mode # "reg" \/ st.bad THEN {"escape"} ELSE {})
           \cup (IF st.empty THEN {"empty"} ELSE {})
           \cup (IF Len(lbs) > MaxLabels THEN {"labels"} ELSE {})
           \cup (IF \E i \in 1..Len(lbs) : Len(lbs[i]) > MaxLabel THEN {"long"} ELSE {})
           \cup (IF Encoded(lbs) > MaxName THEN {"name"} ELSE {})

(* Labels of a valid name, root-most first. *)
NameLabels(text) ==
  IF text = <<>> \/ text = <<Dot>> THEN <<>>
  ELSE LET st == NRun(text)
       IN  Reverse(IF st.raw > 0 THEN Append(st.done, st.cur) ELSE st.done)

(***************************************************************************)
(* A single label: no unescaped dot but possibly the last one.  Outcome is *)
(* "ok" with bytes, "escape", "long" or "dot" (an unescaped dot inside,    *)
(* which is outside of the contract).                                      *)
(***************************************************************************)
LabelOutcome(text) ==
  LET st   == NRun(text)
      n    == Len(st.done)
      trail == n = 1 /\ st.raw = 0 /\ ~st.empty
      dotonly == text = <<Dot>>
  IN  IF dotonly THEN [kind |-> {"ok"}, bytes |-> <<>>]
      ELSE IF n > 1 \/ (n = 1 /\ ~trail) \/ st.empty THEN [kind |-> {"dot"}, bytes |-> <<>>]
      ELSE LET b == IF trail THEN st.done[1] ELSE st.cur
               e == (IF st.mode # "reg" \/ st.bad THEN {"escape"} ELSE {})
                    \cup (IF Len(b) > MaxLabel THEN {"long"} ELSE {})
           IN  IF e = {} THEN [kind |-> {"ok"}, bytes |-> b] ELSE [kind |-> e, bytes |-> <<>>]

(***************************************************************************)
(* Readable text: printable and lower-case, where dots (as bytes of        *)
(* labels), backslashes and non-printable bytes, and nothing else, are     *)
(* escaped.  Which of two forms of an escape is used is up to the writer.  *)
(***************************************************************************)
Printable(c) == c >= 33 /\ c <= 126
Escaped(c) == c = Dot \/ c = Bsl \/ ~Printable(c)

ReadableStep(a, c) ==     \* a = <<mode, code, still readable>>
  LET ok == a[3] /\ Printable(c) /\ Low(c) = c
  IN  CASE a[1] = "reg" -> IF c = Bsl THEN <<"esc", 0, ok>> ELSE <<"reg", 0, ok>>
        [] a[1] = "esc" -> IF IsDigit(c) THEN <<"d2", (c - 48) * 100, ok>> ELSE <<"reg", 0, ok /\ Escaped(c)>>
        [] a[1] = "d2"  -> IF IsDigit(c) THEN <<"d3", a[2] + (c - 48) * 10, ok>> ELSE <<"reg", 0, FALSE>>
        [] a[1] = "d3"  -> IF IsDigit(c) THEN <<"reg", 0, ok /\ Escaped(a[2] + (c - 48))>> ELSE <<"reg", 0, FALSE>>

Readable(text) ==
  LET r == FoldLeft(ReadableStep, <<"reg", 0, TRUE>>, text) IN r[1] = "reg" /\ r[3]

ReadableLabel(text, label) ==
  /\ Readable(text)
  /\ LET o == LabelOutcome(text) IN o.kind = {"ok"} /\ o.bytes = label
  /\ NRun(text).done = <<>>      \* no final dot
ReadableName(text, labels) == Readable(text) /\ NameErrors(text) = {} /\ NameLabels(text) = labels

(* Readable form of one byte and of a label. *)
HumanByte(c) ==
  IF c = Dot \/ c = Bsl THEN <<Bsl, c>>
  ELSE IF c < 33 \/ c > 126 THEN <<Bsl, 48 + (c \div 100), 48 + ((c \div 10) % 10), 48 + (c % 10)>>
  ELSE <<Low(c)>>

Human(label) == FoldLeft(LAMBDA a, c : a \o HumanByte(c), <<>>, label)

(* Readable form of a name given by labels, root-most first. *)
HumanName(labels) ==
  LET r == Reverse(labels)
  IN  FoldLeft(LAMBDA a, l : IF a = <<>> THEN Human(l) ELSE a \o <<Dot>> \o Human(l), <<>>, r)
=============================================================================
