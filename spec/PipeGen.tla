-------------------------------- MODULE PipeGen --------------------------------
(* prints all configurations of the pipeline model *)
EXTENDS PipelineModel, Json
ASSUME \A c \in Cfgs : PrintT("CASE " \o ToJson([n |-> c.n, empty |-> c.empty, drop |-> c.drop, fail |-> c.fail]))
GSpec == cfg = 0 /\ s = 0 /\ arrived = 0 /\ done = 0 /\ [][UNCHANGED vars]_vars
================================================================================
