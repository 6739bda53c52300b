------------------------------- MODULE ClusTrace -------------------------------
(* Recorded results of clustering: objects, weights, id *)
EXTENDS TraceBase, Clustering

ClusLineOk(c) ==
  /\ c.err = ""
  /\ c.w1 = c.w0
  /\ c.id1 = c.id0
  /\ \E o \in Objects(c, c.ev) : SameBag(o, c.out)
===============================================================================
