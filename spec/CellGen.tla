-------------------------------- MODULE CellGen --------------------------------
(* Small resampling problems, to be replayed: all weights, all pseudo-metrics *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, MaxW, MaxD
P == 1..N
Pairs == {<<i, j>> \in P \X P : i < j}
At(d, i, j) == IF i = j THEN 0 ELSE IF i < j THEN d[<<i, j>>] ELSE d[<<j, i>>]
Metrics == {d \in [Pairs -> 0..MaxD] :
  \A i, j, k \in P : At(d, i, k) <= At(d, i, j) + At(d, j, k)}
Weights == {w \in [P -> (0 - MaxW)..MaxW] : \E i \in P : w[i] < 0}
ASSUME \A d \in Metrics : \A w \in Weights :
  PrintT("CASE " \o ToJson([w |-> w, d |-> [i \in P |-> [j \in P |-> At(d, i, j)]]]))
VARIABLE x
Init == x = 0
Spec == Init /\ [][UNCHANGED x]_x
==============================================================================
