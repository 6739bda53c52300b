----------------------------- MODULE DistanceModel -----------------------------
(* The optimal pairing distance is a pseudo-metric: all triples of small events
   with collinear momenta, for which the distances are integers. *)
EXTENDS Distance, Json

CONSTANTS MaxParticles, Types2, Values, Variant

V == Values
Seqs(n) == UNION {{q \in [1..k -> V] : \A i \in 1..(k - 1) : q[i] <= q[i + 1]} : k \in 0..n}
Ev(q, t) == [i \in 1..Len(q) |-> <<t, q[i], 0, 0>>]
Events ==
  IF Types2 THEN {Ev(q, 1) \o Ev(r, 2) : q \in Seqs(MaxParticles), r \in Seqs(1)}
  ELSE {Ev(q, 1) : q \in Seqs(MaxParticles)}

AbsDist(p, q) == Abs(p[2] - q[2])
at(x, i) == IF i <= Len(x) THEN x[i] ELSE Zero

(* broken designs *)
Unpadded(a, b) ==  \* additional particles do not count
  LET n == MinOf(Len(a), Len(b))
  IN IF n = 0 THEN 0
     ELSE MapThenSumSet(LAMBDA i : AbsDist(a[i], b[i]), 1..n)
RECURSIVE Greedy(_, _)  \* each particle takes the closest of the remaining ones
Greedy(a, b) ==
  IF a = <<>> THEN 0
  ELSE LET p == Head(a)
           j == CHOOSE k \in 1..Len(b) : \A m \in 1..Len(b) : AbsDist(p, b[k]) <= AbsDist(p, b[m])
       IN AbsDist(p, b[j]) + Greedy(Tail(a), RemoveAt(b, j))
Padded(a, n) == [i \in 1..n |-> at(a, i)]

TDist(a, b) ==
  CASE Variant = "optimal" -> TypeDist(a, b, 0, 1, 1)
    [] Variant = "unpadded" -> Unpadded(a, b)
    [] Variant = "greedy" -> LET n == MaxOf(Len(a), Len(b)) IN Greedy(Padded(a, n), Padded(b, n))
D(ev, fv) == MapThenSumSet(LAMBDA t : TDist(Momenta(ev, t), Momenta(fv, t)), Types(ev) \cup Types(fv))

VARIABLES a, b, c
vars == <<a, b, c>>
Table == TLCEval([p \in Events \X Events |-> D(p[1], p[2])])
Init == a \in Events /\ b \in Events /\ c \in Events
Spec == Init /\ [][UNCHANGED vars]_vars

Symmetric == Table[<<a, b>>] = Table[<<b, a>>]
Identity == (Table[<<a, b>>] = 0) <=> SameMomenta(a, b)
Triangle == Table[<<a, c>>] <= Table[<<a, b>>] + Table[<<b, c>>]
V3 == -1..2
V5 == {-3, -1, 0, 2, 5}
===============================================================================
