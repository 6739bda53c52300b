------------------------------ MODULE CapiRunTrace ------------------------------
(* Runs through the C interface, like in RunTrace. seen: the events that were shown to
   the user-defined distance, see CapiViews *)
EXTENDS TraceBase
R == INSTANCE Run

SetOf(s) == {s[i] : i \in 1..Len(s)}

V == INSTANCE CapiViews

ViewsOk(c) ==
  LET recs == R!Records(c.files)
      evs == [k \in 1..Len(recs) |-> R!EF!EventOf(recs[k].fmt, recs[k].rec, c.names)]
  IN V!ViewsOk(c, evs) /\ (c.custom = "" => c.seen = <<>>)

CapiRunLineOk(c) ==
  /\ c.intact
  /\ Assert(R!FactorsOk(c, c.files), "wrong normalisation of the recorded weights")
  /\ IF R!MustFail(c, c.files) THEN c.rc = 1
     ELSE /\ c.rc = 0
          /\ SetOf(c.onames) = SetOf(c.inames) /\ Len(c.onames) = Len(c.inames)
          /\ R!OutputsOk(c, c.files, c.outs)
          /\ ViewsOk(c)
================================================================================
