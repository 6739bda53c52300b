--------------------------- MODULE NearestNeighbour ---------------------------
(* What a nearest-neighbour search has to return, independently of the
   algorithm. Points are 1..n, D is a function of two points. *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a < b THEN b ELSE a
Min(a, b) == IF a < b THEN a ELSE b

(* everything a search around q may return *)
Admissible(n, D(_, _), q, limit) ==
  {i \in 1..n : i # q /\ D(q, i) <= limit}

(* ans: the first elements <<point, distance>>, at most take many *)
IsAnswer(n, D(_, _), q, limit, ans, take) ==
  LET adm == Admissible(n, D, q, limit)
      got == {ans[k][1] : k \in 1..Len(ans)}
  IN /\ Len(ans) = Min(take, Cardinality(adm))
     /\ Cardinality(got) = Len(ans)
     /\ got \subseteq adm
     /\ \A k \in 1..Len(ans) : ans[k][2] = D(q, ans[k][1])
     /\ \A k \in 1..Len(ans) - 1 : ans[k][2] <= ans[k + 1][2]
     /\ Len(ans) > 0 =>
          \A i \in adm \ got : D(q, i) >= ans[Len(ans)][2]
==============================================================================
