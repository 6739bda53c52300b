--------------------------------- MODULE UnwGen ---------------------------------
(* All small samples, minimum weights and constant streams of random numbers
   (u of D) for which no draw is ambiguous, to be replayed *)
EXTENDS Unweight, TLC, Json
CONSTANTS N, W, M, D
Weights == (0 - W)..W
Samples == UNION {[1..n -> Weights] : n \in 0..N}
Us == {0, D \div 4, D \div 2, D - 2, D - 1}
ASSUME \A s \in Samples : \A m \in 0..M : \A u \in Us :
  (\A i \in 1..Len(s) : m = 0 \/ Clear(s[i], m, u, D)) =>
     PrintT("CASE " \o ToJson([w |-> s, m |-> m, u |-> u]))
VARIABLE x
GInit == x = 0
GSpec == GInit /\ [][UNCHANGED x]_x
================================================================================
