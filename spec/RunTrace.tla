-------------------------------- MODULE RunTrace --------------------------------
(* Recorded runs of the program. rc is the exit status, -1 if it did not end;
   inames: names of the input event files, onames: of the files in the output
   directory; intact: no input file has changed. *)
EXTENDS TraceBase
R == INSTANCE Run

SetOf(s) == {s[i] : i \in 1..Len(s)}

RunLineOk(c) ==
  /\ c.intact
  /\ Assert(R!FactorsOk(c, c.files), "wrong normalisation of the recorded weights")
  /\ IF R!MustFail(c, c.files) THEN c.rc = 1
     ELSE /\ c.rc = 0
          /\ SetOf(c.onames) = SetOf(c.inames) /\ Len(c.onames) = Len(c.inames)
          /\ R!OutputsOk(c, c.files, c.outs)
================================================================================
