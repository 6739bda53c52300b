-------------------------------- MODULE Partition --------------------------------
(* A partition of event space: a complete binary tree of vantage points, listed in
   breadth-first order, vp[i] = [pt, r] with children vp[2i] (at most r away) and
   vp[2i + 1] (farther away). The regions are numbered from 0, in the order of the
   tree. D(i, p) is the distance of point p from vantage point number i. *)
EXTENDS Integers, Sequences, FiniteSets

NumRegions(vp) == Len(vp) + 1

RECURSIVE Descend(_, _, _, _)
Descend(vp, D(_, _), p, i) ==
  IF i > Len(vp) THEN i - Len(vp) - 1
  ELSE Descend(vp, D, p, IF D(i, p) <= vp[i].r THEN 2 * i ELSE 2 * i + 1)
Region(vp, D(_, _), p) == Descend(vp, D, p, 1)

RECURSIVE First(_, _)
First(X, k) == IF k = 0 THEN {} ELSE LET x == CHOOSE y \in X : \A z \in X : y <= z IN {x} \cup First(X \ {x}, k - 1)

(* ways to choose t of the points in S, up to exchange of equivalent ones *)
RECURSIVE Choices(_, _, _)
Choices(S, t, class) ==
  IF t = 0 THEN {{}}
  ELSE IF Cardinality(S) < t THEN {}
  ELSE LET p == CHOOSE x \in S : TRUE
           same == {o \in S : class[o] = class[p]}
       IN UNION {{First(same, k) \cup Y : Y \in Choices(S \ same, t - k, class)}
                 : k \in 0..(IF Cardinality(same) < t THEN Cardinality(same) ELSE t)}

RECURSIVE Below(_, _)
Below(vp, i) == IF i > Len(vp) THEN {} ELSE {vp[i].pt} \cup Below(vp, 2 * i) \cup Below(vp, 2 * i + 1)

(* the points S of the sample can be halved at every vantage point, where points at
   the boundary may count for either side, and the vantage point itself for none *)
RECURSIVE Balanced(_, _, _, _)
Balanced(vp, D(_, _), S, i) ==
  i > Len(vp) \/
  LET rest == S \ {vp[i].pt}
      inner == Below(vp, 2 * i)
      outer == Below(vp, 2 * i + 1)
      boundary == {p \in rest : D(i, p) = vp[i].r}
      in == {p \in rest : D(i, p) < vp[i].r} \cup (boundary \cap inner)
      tie == boundary \ (inner \cup outer)
      n == Cardinality(rest)
      near(k) == k - n \div 2 \in {0, n % 2}
      profile == [p \in tie |-> [k \in 1..Len(vp) |-> D(k, p)]]
  IN /\ vp[i].pt \in S
     /\ \E t \in 0..Cardinality(tie) :
       /\ near(Cardinality(in) + t)
       /\ \E T \in Choices(tie, t, profile) :
            /\ Balanced(vp, D, in \cup T, 2 * i)
            /\ Balanced(vp, D, rest \ (in \cup T), 2 * i + 1)

(* every vantage point needs another point that fixes its radius *)
MinSample(n) == IF n < 2 THEN n ELSE n + n \div 2 - 1
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
================================================================================
