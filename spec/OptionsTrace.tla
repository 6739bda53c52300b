------------------------------- MODULE OptionsTrace -------------------------------
(* Recorded command lines. rc: exit status; written: whether there is any new or
   changed file; message: whether there was an error message. *)
EXTENDS TraceBase
O == INSTANCE Options WITH Variant <- "as specified", args <- 0, files <- 0, todo <- 0, seen <- 0

OptionsLineOk(c) ==
  IF O!Accepted(c.tool, c.opts) THEN c.rc = 0
  ELSE c.rc \in {1, 2} /\ ~c.written /\ c.message
====================================================================================
