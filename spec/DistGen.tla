------------------------------- MODULE DistGen -------------------------------
(* prints the events of the distance model *)
EXTENDS DistanceModel
ASSUME \A e \in Events : PrintT("CASE " \o ToJson(e))
GSpec == a = 0 /\ b = 0 /\ c = 0 /\ [][UNCHANGED vars]_vars
===============================================================================
