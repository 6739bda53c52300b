------------------------------- MODULE TargetsTrace -------------------------------
(* Recorded runs in directories set up as in TargetsGen. rc: exit status; intact:
   the input files have not changed; touched: whether anything else was written;
   outs: number of complete outputs. *)
EXTENDS TraceBase
T == INSTANCE Targets WITH Variant <- "as specified", k <- 0, todo <- {}, disk <- <<>>, phase <- ""

TargetsLineOk(c) ==
  LET k == [c.run EXCEPT !.out = c.run.out]
  IN /\ c.intact
     /\ IF T!MustRefuse(k) THEN c.rc = 1 /\ ~c.touched
        ELSE c.rc = 0 /\ c.outs = Cardinality({T!FileOf(k, o[2]) : o \in T!Outputs(k)})
====================================================================================
