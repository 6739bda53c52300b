-------------------------------- MODULE TargetsGen --------------------------------
(* All runs, with whether they have to be refused, to be replayed. *)
EXTENDS Targets, Json

ASSUME \A r \in Runs(2) : PrintT("CASE " \o ToJson([run |-> r, refuse |-> MustRefuse(r)]))

GInit == k = <<>> /\ todo = {} /\ disk = <<>> /\ phase = "none"
GSpec == GInit /\ [][UNCHANGED vars]_vars
====================================================================================
