------------------------------ MODULE MalformedGen ------------------------------
(* All ways to damage one entry. *)
EXTENDS MalformedEntries, Json, TLC

Roles(line) == IF line \in {"P", "particle", "p"} THEN {"out", "in"} ELSE {""}
Asked(fmt) == IF fmt = "hepmc" THEN BOOLEAN ELSE {FALSE}

ASSUME \A f \in Formats : \A l \in Lines : \A e \in Entries(f, l) : \A x \in Faults(e) :
         \A r \in Roles(l) : \A a \in Asked(f) :
           PrintT("CASE " \o ToJson([fmt |-> f, line |-> l, entry |-> e, fault |-> x[1], text |-> x[2], role |-> r, asked |-> a]))
VARIABLE g
GSpec == g = 0 /\ [][FALSE]_g
================================================================================
