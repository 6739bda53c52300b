------------------------------- MODULE NNTrace -------------------------------
(* Recorded queries on one search structure: every answer has to be one that
   NearestNeighbour admits, whatever was asked before. *)
EXTENDS TraceBase, NearestNeighbour

RECURSIVE MaxDiff(_, _, _)
MaxDiff(a, b, k) ==
  IF k = 0 THEN 0 ELSE Max(Abs(a[k] - b[k]), MaxDiff(a, b, k - 1))

NNLineOk(c) ==
  LET Dm(i, j) == c.d[i][j]
      Dx(i, j) == MaxDiff(c.x[i], c.x[j], Len(c.x[i]))
      shift(a) == [k \in 1..Len(a) |-> <<a[k][1] + 1, a[k][2]>>]
  IN /\ c.err = ""
     /\ Len(c.res) = Len(c.q)
     /\ \A k \in 1..Len(c.q) :
          IF Len(c.d) > 0
          THEN IsAnswer(Len(c.d), Dm, c.q[k][1] + 1, c.limit, shift(c.res[k]), c.q[k][2])
          ELSE IsAnswer(Len(c.x), Dx, c.q[k][1] + 1, c.limit, shift(c.res[k]), c.q[k][2])
==============================================================================
