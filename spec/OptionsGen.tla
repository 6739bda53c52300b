-------------------------------- MODULE OptionsGen --------------------------------
(* Command lines to be tried. *)
EXTENDS Options, Json

ASSUME \A t \in Tools : \A s \in Lines(t) : PrintT("CASE " \o ToJson([tool |-> t, opts |-> SetToSeq(s)]))

GInit == args = 0 /\ files = 0 /\ todo = 0 /\ seen = 0
GSpec == GInit /\ [][UNCHANGED vars]_vars
====================================================================================
