-------------------------------- MODULE VPTree --------------------------------
(* The vantage-point tree search as implemented: all trees that the
   construction can produce (any vantage point, any order among equal
   distances, any number of layers) over all pseudo-metrics on N points with
   distances 0..M; one step returns the next neighbour. Checked against
   NearestNeighbour. *)
EXTENDS NearestNeighbour, TLC

CONSTANTS N, M,
          Metric,     \* FALSE: drop the triangle inequality (negative control)
          Variant     \* "ok" or the name of a broken design

P == 1..N
Pairs == {<<i, j>> \in P \X P : i < j}
DistFns == [Pairs -> 0..M]
At(d, i, j) == IF i = j THEN 0 ELSE IF i < j THEN d[<<i, j>>] ELSE d[<<j, i>>]
IsPseudoMetric(d) ==
  \A i, j, k \in P : At(d, i, k) <= At(d, i, j) + At(d, j, k)
Metrics == {d \in DistFns : IsPseudoMetric(d)}

NoTree == [kind |-> "none"]
Leaf(S) == [kind |-> "rest", pts |-> S]

(* all ways to split S by distance from v: the inside gets |S| div 2 points *)
Splits(d, v, S) ==
  {I \in SUBSET S :
     /\ Cardinality(I) = Cardinality(S) \div 2
     /\ \A i \in I, o \in S \ I : At(d, v, i) <= At(d, v, o)}

MinDist(d, v, S) == CHOOSE x \in 0..M :
  /\ \E i \in S : At(d, v, i) = x
  /\ \A i \in S : At(d, v, i) >= x

(* trees on the point set S with at most `depth` layers *)
RECURSIVE Trees(_, _, _)
Trees(d, S, depth) ==
  IF S = {} THEN {NoTree}
  ELSE IF Cardinality(S) < 2 \/ depth = 0 THEN {Leaf(S)}
  ELSE UNION {
    UNION {
      {[kind |-> "node", pt |-> v, r |-> MinDist(d, v, (S \ {v}) \ I), inside |-> a, outside |-> b]
        : a \in Trees(d, I, depth - 1), b \in Trees(d, (S \ {v}) \ I, depth - 1)}
      : I \in Splits(d, v, S \ {v})}
    : v \in S}

None == <<>>
Nearer(a, b) ==
  IF a = None THEN b ELSE IF b = None THEN a ELSE IF a[2] <= b[2] THEN a ELSE b

Candidate(d, q, excl, p) == IF p = q \/ p \in excl THEN None ELSE <<p, At(d, q, p)>>

RECURSIVE Scan(_, _, _, _)
Scan(d, q, excl, S) ==
  IF S = {} THEN None
  ELSE LET p == CHOOSE x \in S : \A y \in S : x <= y
       IN Nearer(Candidate(d, q, excl, p), Scan(d, q, excl, S \ {p}))

(* nearest_in_subtree *)
RECURSIVE Search(_, _, _, _, _)
Search(d, t, q, excl, limit) ==
  IF t.kind = "none" THEN None
  ELSE IF t.kind = "rest"
  THEN IF Variant = "cut" /\ Cardinality(t.pts) > 1
       THEN Scan(d, q, excl, {CHOOSE x \in t.pts : TRUE})
       ELSE Scan(d, q, excl, t.pts)
  ELSE
    LET dv == At(d, q, t.pt)
        here == Candidate(d, q, excl, t.pt)
        swap == dv > t.r
        first == IF swap THEN t.outside ELSE t.inside
        second == IF swap THEN t.inside ELSE t.outside
        n1 == Nearer(here, Search(d, first, q, excl, limit))
        gap == Abs(dv - t.r)
        prune == \/ gap > limit
                 \/ /\ n1 # None
                    /\ IF Variant = "greedy" THEN TRUE
                       ELSE IF Variant = "radius" THEN n1[2] <= t.r
                       ELSE n1[2] < gap
    IN IF prune THEN n1 ELSE Nearer(n1, Search(d, second, q, excl, limit))

VARIABLES d, tree, q, limit, ans, done
vars == <<d, tree, q, limit, ans, done>>

Init ==
  /\ d \in IF Metric THEN Metrics ELSE DistFns
  /\ tree \in UNION {Trees(d, P, depth) : depth \in 0..N}
  /\ q \in P
  /\ limit \in 0..M
  /\ ans = <<>>
  /\ done = FALSE

Step ==
  /\ ~done
  /\ LET res == Search(d, tree, q, {ans[k][1] : k \in 1..Len(ans)}, limit)
     IN IF res = None \/ res[2] > limit
        THEN done' = TRUE /\ UNCHANGED ans
        ELSE done' = FALSE /\ ans' = Append(ans, res)
  /\ UNCHANGED <<d, tree, q, limit>>

Next == Step \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

(* the sequence returned so far is a correct beginning, and at the end complete *)
Dist(i, j) == At(d, i, j)
Correct == IsAnswer(N, Dist, q, limit, ans, IF done THEN N ELSE Len(ans))
Terminates == <>done
==============================================================================
