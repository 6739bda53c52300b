-------------------------------- MODULE SeedTrace --------------------------------
(* Recorded seed selections. Weights are given by their rank (0: zero). *)
EXTENDS TraceBase, Resampling

SeedsLineOk(c) ==
  LET n == Len(c.w)
      w(i) == c.w[i]
      s == [k \in 1..Len(c.seeds) |-> c.seeds[k] + 1]
      neg == {i \in 1..n : w(i) < 0}
  IN /\ c.err = ""
     /\ Len(s) = Cardinality(neg)
     /\ {s[k] : k \in 1..Len(s)} = neg
     /\ \A k \in 1..Len(s) - 1 :
          CASE c.strategy = "next" -> s[k] < s[k + 1]
            [] c.strategy \in {"most", "default"} -> w(s[k]) <= w(s[k + 1])
            [] c.strategy = "least" -> w(s[k]) >= w(s[k + 1])
==============================================================================
