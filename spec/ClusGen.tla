-------------------------------- MODULE ClusGen --------------------------------
(* prints the events of the clustering model *)
EXTENDS ClusteringModel
ASSUME \A e \in Events : PrintT("CASE " \o ToJson(e))
GSpec == c = 0 /\ ev = 0 /\ [][UNCHANGED vars]_vars
===============================================================================
