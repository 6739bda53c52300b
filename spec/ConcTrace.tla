------------------------------- MODULE ConcTrace -------------------------------
(* Recorded concurrent runs: the final weights have to be the result of
   averaging the observed cells one after the other, each once, in some order
   (ResampleConc, CellLocks), and fulfil the guarantees of ResampleConc.
   w0, w: central weights before and after as fixed-point numbers; tol: 0 if all
   means are integers. *)
EXTENDS TraceBase, Resampling

Within(x, y, tol) == x - y <= tol /\ y - x <= tol
Single(f) == [i \in DOMAIN f |-> <<f[i]>>]
Avg(f, S) == LET a == Averaged(Single(f), S) IN [i \in DOMAIN f |-> a[i][1]]
SetOf(seq) == {seq[k] + 1 : k \in 1..Len(seq)}

RECURSIVE Explained(_, _, _, _)
Explained(f, cells, target, tol) ==
  IF cells = {}
  THEN \A i \in DOMAIN f : Within(f[i], target[i], tol)
  ELSE \E c \in cells : Explained(Avg(f, c[2]), cells \ {c}, target, tol)

SumOf(f) == WeightOf(Single(f), DOMAIN f, 1)

ConcLineOk(c) ==
  LET cells == {<<k, SetOf(c.cells[k])>> : k \in 1..Len(c.cells)}
      neg == {i \in DOMAIN c.w0 : c.w0[i] < 0}
      D(i, j) == c.d[i][j]
      n == Len(c.w0)
  IN /\ c.err = ""
     /\ Len(c.w) = n
     /\ Cardinality(cells) <= Cardinality(neg)
     /\ \A x \in cells : Cardinality(x[2]) = Len(c.cells[x[1]])
     \* every cell consists of a seed and its nearest neighbours
     /\ \A x \in cells : \E s \in x[2] \cap neg :
          \A m \in x[2] \ {s}, o \in (1..n) \ x[2] : D(s, m) <= D(s, o)
     /\ Within(SumOf(c.w), SumOf(c.w0), c.tol * n)
     /\ (c.unlimited /\ SumOf(c.w0) >= 0) => \A i \in 1..n : c.w[i] >= 0 - c.tol
     /\ Explained(c.w0, cells, c.w, c.tol)
==============================================================================
