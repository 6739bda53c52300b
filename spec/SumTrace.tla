------------------------------- MODULE SumTrace -------------------------------
(* Totals before and after: for every weight that takes part, the sum over all
   events is conserved; every event keeps its identity and number of weights.
   Fixed-point numbers, tol per event. *)
EXTENDS TraceBase, SequencesExt

Sum(w, k) == FoldLeft(LAMBDA acc, x : acc + x[k], 0, w)

SumLineOk(c) ==
  /\ c.err = ""
  /\ Len(c.w) = Len(c.w0)
  /\ c.ids = [k \in 1..Len(c.w0) |-> k - 1]
  /\ \A i \in 1..Len(c.w) : Len(c.w[i]) = Len(c.w0[i])
  \* change of the sums in units of n epsilon times the sum of absolute weights:
  \* one for the summation and at most two for each cell
  /\ \A k \in 1..Len(c.drift) : c.drift[k] <= 2 + 2 * c.cells
  /\ Len(c.w0) > 0 => Len(c.drift) = Len(c.w0[1])
  /\ Len(c.w0) > 0 =>
       \A k \in 1..Len(c.w0[1]) :
         LET x == Sum(c.w, k) - Sum(c.w0, k)
         IN x <= c.tol * Len(c.w) + c.tol /\ -x <= c.tol * Len(c.w) + c.tol
==============================================================================
