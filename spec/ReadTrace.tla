-------------------------------- MODULE ReadTrace --------------------------------
(* Recorded readings of lists of event files: every record of every file once, in
   order. names: the weights that were asked for; an error has to be reported for
   the first event that does not have them. *)
EXTENDS TraceBase, EventFile

AllEvents(c) ==
  FoldLeft(LAMBDA acc, f : acc \o [i \in 1..Len(f.recs) |-> [ok |-> HasWeights(f.recs[i], c.names),
                                                          fmt |-> f.fmt, rec |-> f.recs[i]]],
           <<>>, c.files)

ReadLineOk(c) ==
  LET evs == AllEvents(c)
      failing == {k \in 1..Len(evs) : ~evs[k].ok}
      n == IF failing = {} THEN Len(evs) ELSE (CHOOSE k \in failing : \A j \in failing : k <= j) - 1
  IN /\ (c.err = "") <=> failing = {}
     /\ ~c.crash
     /\ Len(c.got) = n
     /\ \A k \in 1..n : SameEvent(c.got[k], EventOf(evs[k].fmt, evs[k].rec, c.names))
================================================================================
