-------------------------------- MODULE Etc ---------------------------------
(***************************************************************************)
(* The generator at work: it selects data, then walks over the catalogue,  *)
(* a directory before what is in it, and creates an instance of every      *)
(* template where the filled in path points to.  For every catalogue of    *)
(* this size the file system has to be in the end what Catalogue says, and *)
(* templates are never written to on the way.  Names and texts which fail  *)
(* and things in the way of instances stop the walk in the middle.         *)
(***************************************************************************)
EXTENDS Catalogue

CONSTANT Deep

Lit(x) == [t |-> x, r |-> <<>>]
Ref(x) == [t |-> "", r |-> x]
Bad(x) == [t |-> x, r |-> <<>>, x |-> TRUE]
Names == {<<Lit("a")>>, <<Lit("b"), Ref(<<"x">>)>>, <<Ref(<<"y", "z">>)>>, <<Ref(<<"x">>), Lit(".go")>>}
Texts == {<<>>, <<Lit("v = "), Ref(<<"x">>), Lit(" {"), Ref(<<"y", "z">>), Lit("}")>>}
Spoiled == {<<Bad("{{end}}")>>, <<Lit("a"), Ref(<<"x">>), Bad("{{template 1}}")>>}
S(x) == [s |-> x, m |-> <<>>]
Data == [s |-> "", m |-> <<<<"x", S("8")>>, <<"y", [s |-> "", m |-> <<<<"z", S("8")>>>>]>>>>]
Doc == [s |-> "", m |-> <<<<"one", Data>>, <<"two", [s |-> "", m |-> <<<<"in", Data>>>>]>>, <<"x", S("8")>>>>]
Sels == {<<"one">>, <<"two", "in">>, <<"none">>, <<"one", "x", "z">>, <<"two", "on">>}

D(p) == [p |-> p, dir |-> TRUE, c |-> <<>>]
F(p, c) == [p |-> p, dir |-> FALSE, c |-> c]

(* The root directory, a file or a directory with a file in it, and one more file. *)
Catalogues ==
  {<<D(<<r>>)>> : r \in Names}
  \cup {<<F(<<r>>, c)>> : r \in Names, c \in Texts}
  \cup {<<D(<<r>>), F(<<r, a>>, c), F(<<r, b>>, c2)>> : r, a, b \in Names, c, c2 \in Texts}
  \cup {<<D(<<r>>), F(<<r, a>>, c), F(<<r, b>>, c2)>> : r, a, b \in Names, c \in Texts, c2 \in Spoiled}
  \cup {<<D(<<r>>), F(<<r, a>>, c), D(<<r, b>>), F(<<r, b, a>>, c)>> : r, a \in Names, c \in Texts, b \in Spoiled}
  \cup {<<D(<<b>>), F(<<b, a>>, c)>> : a \in Names, c \in Texts, b \in Spoiled}
  \cup IF ~Deep THEN {} ELSE
       {<<D(<<r>>), D(<<r, a>>), F(<<r, a, f>>, c), F(<<r, b>>, c)>> : r, a, b, f \in Names, c \in Texts}

VARIABLES case, todo, files, ph
vars == <<case, todo, files, ph>>

Before == {<<>>, <<[p |-> <<"b8">>, dir |-> TRUE, c |-> ""], [p |-> <<"b8", "8.go">>, dir |-> FALSE, c |-> "previous text, a long one"]>>,
           <<[p |-> <<"b8">>, dir |-> FALSE, c |-> "a file in the way"]>>,
           <<[p |-> <<"b8">>, dir |-> TRUE, c |-> ""], [p |-> <<"b8", "8.go">>, dir |-> TRUE, c |-> ""]>>}

(* Two templates of the same place, or a file in place of a directory, make no sense. *)
Sane(c) ==
  LET out == [i \in 1..Len(c.tpl) |-> FillPath(c.tpl[i].p, Data)]
  IN  \A i, j \in 1..Len(out) : i # j => out[i] # out[j]

Init ==
  /\ case \in [tpl : Catalogues, pre : Before, sel : Sels, data : {Doc}]
  /\ Sane(case)
  /\ todo = case.tpl
  /\ files = {case.pre[i] : i \in 1..Len(case.pre)}
  /\ ph = "start"

Chosen == Select(case.data, case.sel)

Start ==
  /\ ph = "start"
  /\ ph' = IF IsNone(Chosen) THEN "failed" ELSE "walk"
  /\ UNCHANGED <<case, todo, files>>

InTheWay(y) == \E f \in files : \/ f.p = y.p /\ f.dir # y.dir
                                \/ ~f.dir /\ Len(f.p) < Len(y.p) /\ Pre(f.p, y.p)

Do ==
  /\ ph = "walk" /\ todo # <<>>
  /\ LET x == Head(todo)
         y == Instance(x, Chosen)
     IN  IF Nameless(x) \/ ~HasRef(x.p) \/ InTheWay(y) THEN ph' = "failed" /\ UNCHANGED <<todo, files>>
         ELSE IF Flawed(x)    \* before anything is written or after some of it
         THEN /\ ph' = "failed" /\ UNCHANGED todo
              /\ \E c \in {"", "started"} : \/ UNCHANGED files
                                         \/ files' = {f \in files : f.p # y.p} \cup {[y EXCEPT !.c = c]}
         ELSE /\ files' = {f \in files : f.p # y.p} \cup {y}
              /\ todo' = Tail(todo)
              /\ UNCHANGED ph
  /\ UNCHANGED case

End == ph = "walk" /\ todo = <<>> /\ ph' = "done" /\ UNCHANGED <<case, todo, files>>

Next == Start \/ Do \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Mirrors ==
  /\ ph = "done" => files = Outcome(case.pre, case.tpl, Chosen) /\ ~Refused(case) /\ ~Failing(case)
  /\ ph = "failed" => IF Refused(case) THEN files = {case.pre[i] : i \in 1..Len(case.pre)}
                      ELSE Failing(case) /\ Partial(case, files)
(* What is created has a name of its own, with no placeholder left. *)
Apart == [][\A f \in files' \ files : \E x \in 1..Len(case.tpl) : HasRef(case.tpl[x].p) /\ f.p = FillPath(case.tpl[x].p, Chosen)]_vars
Ends == <>(ph \in {"done", "failed"})
=============================================================================
