------------------------------- MODULE Distance -------------------------------
(* The distance between events (arXiv:2109.07851).

   An event is a sequence of particles <<type, px, py, pz>> with integer momenta
   whose transverse momentum is an integer. The transverse-momentum weight is
   tau = tn / td. Distances are fixed-point numbers in units of 1/s. *)
EXTENDS Kinematics, FiniteSetsExt, SequencesExt

Momenta(ev, t) == SelectSeq(ev, LAMBDA p : p[1] = t)
Types(ev) == {ev[i][1] : i \in 1..Len(ev)}
Zero == <<0, 0, 0, 0>>

(* distance between two momenta, rounded down *)
PairDist(p, q, tn, td, s) ==
  LET dpt == Pt(p) - Pt(q)
      sq == tn * tn * dpt * dpt
            + td * td * ((p[2] - q[2]) * (p[2] - q[2]) + (p[3] - q[3]) * (p[3] - q[3])
                         + (p[4] - q[4]) * (p[4] - q[4]))
  IN Sqrt((sq * s * s) \div (td * td))

(* cheapest complete assignment of the rows of a square cost matrix, over all
   assignments: best[S] is the least cost of assigning the first |S| rows to S *)
RECURSIVE Best(_, _, _)
Best(cost, k, prev) ==
  LET n == Len(cost)
  IN IF k > n THEN prev[1..n]
     ELSE Best(cost, k + 1, TLCEval([S \in kSubset(k, 1..n) |-> Min({prev[S \ {j}] + cost[k][j] : j \in S})]))
MinAssignment(cost) == Best(cost, 1, [S \in {{}} |-> 0])

(* same-type particles, padded with zeros *)
TypeDist(a, b, tn, td, s) ==
  LET n == MaxOf(Len(a), Len(b))
      at(x, i) == IF i <= Len(x) THEN x[i] ELSE Zero
  IN MinAssignment(TLCEval([i \in 1..n |-> [j \in 1..n |-> PairDist(at(a, i), at(b, j), tn, td, s)]]))

Dist(ev, fv, tn, td, s) ==
  MapThenSumSet(LAMBDA t : TypeDist(Momenta(ev, t), Momenta(fv, t), tn, td, s), Types(ev) \cup Types(fv))

(* each of the pairs contributes less than one unit of rounding *)
Slack(ev, fv) == 2 + Len(ev) + Len(fv)

(* the same momenta, apart from vanishing ones *)
NonZero(ev) == SelectSeq(ev, LAMBDA p : Tail(p) # <<0, 0, 0>>)
Count(ev, p) == Cardinality({i \in 1..Len(ev) : ev[i] = p})
SameMomenta(ev, fv) ==
  LET a == NonZero(ev)
      b == NonZero(fv)
  IN Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
===============================================================================
