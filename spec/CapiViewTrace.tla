------------------------------ MODULE CapiViewTrace ------------------------------
(* Recorded views of events with general momenta *)
EXTENDS TraceBase
V == INSTANCE CapiViews
CapiViewLineOk(c) == c.rc = 0 /\ V!ViewsOk(c, c.evs)
================================================================================
