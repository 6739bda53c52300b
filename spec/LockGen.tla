-------------------------------- MODULE LockGen --------------------------------
(* Pairs of cells and an event to be held such that threads that lock in the
   order in which members were added block each other for good once the event
   is released: both stop in front of it, each holding something the other one
   needs later. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
N == 5
P == 1..N
Injective(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
CellSeqs == UNION {{s \in [1..k -> P] : Injective(s)} : k \in 3..4}
Before(s, e) == {s[k] : k \in {j \in DOMAIN s : \A i \in 1..j : s[i] # e}}
After(s, e) == {s[k] : k \in DOMAIN s} \ (Before(s, e) \cup {e})
Blocks(a, b, e) ==
  /\ \E k \in DOMAIN a : a[k] = e
  /\ \E k \in DOMAIN b : b[k] = e
  /\ Before(a, e) \cap Before(b, e) = {}
  /\ After(a, e) \cap Before(b, e) # {}
  /\ After(b, e) \cap Before(a, e) # {}
ASSUME \A a, b \in CellSeqs : (a[1] < b[1]) =>
  \A e \in P : Blocks(a, b, e) => PrintT("CASE " \o ToJson([cells |-> <<a, b>>, hold |-> e]))
VARIABLE x
Init == x = 0
Spec == Init /\ [][UNCHANGED x]_x
==============================================================================
