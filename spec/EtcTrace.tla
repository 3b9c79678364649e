------------------------------ MODULE EtcTrace ------------------------------
(* Runs of the real generator over catalogues in scratch directories: exit  *)
(* status, templates and all the files afterwards have to be what Catalogue *)
(* says.                                                                    *)
EXTENDS Catalogue, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l

TR == Traces[t]
FileSet(s) == {[p |-> s[i].p, dir |-> s[i].dir, c |-> s[i].c] : i \in 1..Len(s)}

Explained(x) ==
  /\ x.intact
  /\ IF x.nodata \/ Refused(x)
     THEN x.exit # 0 /\ FileSet(x.post) = FileSet(x.pre)
     ELSE IF Failing(x) THEN x.exit # 0 /\ Partial(x, FileSet(x.post))
     ELSE x.exit = 0 /\ FileSet(x.post) = Outcome(x.pre, x.tpl, Select(x.data, x.sel))

Init == t \in 1..Len(Traces) /\ l = 0
Explain == l < Len(TR.ev) /\ Explained(TR.ev[l + 1]) /\ l' = l + 1 /\ UNCHANGED t
Done == l = Len(TR.ev) /\ UNCHANGED <<t, l>>
Spec == Init /\ [][Explain \/ Done]_<<t, l>>
=============================================================================
