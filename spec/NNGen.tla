-------------------------------- MODULE NNGen --------------------------------
(* Prints every pseudo-metric of the VPTree model, to be replayed *)
EXTENDS VPTree, Json
Matrix(f) == [i \in P |-> [j \in P |-> At(f, i, j)]]
ASSUME \A f \in Metrics : PrintT("CASE " \o ToJson(Matrix(f)))
GInit == d = 0 /\ tree = 0 /\ q = 0 /\ limit = 0 /\ ans = <<>> /\ done = TRUE
GSpec == GInit /\ [][UNCHANGED vars]_vars
==============================================================================
