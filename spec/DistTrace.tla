------------------------------- MODULE DistTrace -------------------------------
(* Recorded distances between all pairs of the events of a line *)
EXTENDS TraceBase, Distance

DistLineOk(c) ==
  LET n == Len(c.ev)
      D(i, j) == c.res[i][j]
  IN /\ c.err = ""
     /\ Len(c.res) = n
     /\ \A i \in 1..n : \A j \in 1..n :
          /\ IF i <= j
             THEN LET d == Dist(c.ev[i], c.ev[j], c.tn, c.td, c.s)
                  IN /\ D(i, j) >= d - 1
                     /\ D(i, j) <= d + Slack(c.ev[i], c.ev[j])
                     \* equal momenta are at distance zero, not nearly zero
                     /\ SameMomenta(c.ev[i], c.ev[j]) => c.zero[i][j]
             ELSE Abs(D(i, j) - D(j, i)) <= 1
          /\ \A k \in 1..n : D(i, k) <= D(i, j) + D(j, k) + 3
===============================================================================
