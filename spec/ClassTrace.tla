------------------------------- MODULE ClassTrace -------------------------------
(* Recorded runs of the tools that build partitions and classify events. prc and crc
   are their exit statuses; written: there is a partition file. *)
EXTENDS TraceBase
C == INSTANCE Classification

Built(c) == IF C!TooSmall(c) THEN c.prc = 1 /\ ~c.written ELSE c.prc = 0 /\ c.perr = ""

PartitionLineOk(c) ==
  /\ Built(c)
  /\ c.prc = 0 => C!PartitionOk(c) /\ c.crc = 0 /\ C!RightRegion(c)

ClassifyLineOk(c) == c.prc = 0 /\ c.perr = "" /\ Len(c.vp) = c.n - 1 => c.crc = 0 /\ C!Lossless(c)
================================================================================
