----------------------------- MODULE ResampleTrace -----------------------------
(* Runs with a single thread: the seeds are processed in order; those with
   negative weight get their cell, all others are left alone. *)
EXTENDS TraceBase, Resampling

SetOf(seq) == {seq[k] + 1 : k \in 1..Len(seq)}

RECURSIVE Run(_, _, _, _)
Run(c, w, seeds, cells) ==
  LET D(i, j) == c.d[i][j]
  IN IF seeds = <<>> THEN cells = <<>> /\ w = c.w
     ELSE LET s == Head(seeds) + 1
          IN IF Central(w, s) >= 0 THEN Run(c, w, Tail(seeds), cells)
             ELSE /\ cells # <<>>
                  /\ LET x == Head(cells)
                         m == SetOf(x.m)
                     IN /\ Cardinality(m) = Len(x.m) /\ x.n = Len(x.m)
                        /\ IsCell(w, D, s, c.limit, m)
                        /\ x.r = Radius(D, s, m)
                        /\ x.s = WeightOf(w, m, 1)
                        /\ Divides(w, m)
                        /\ Run(c, Averaged(w, m), Tail(seeds), Tail(cells))

(* the only seed order, if the strategy leaves no choice *)
ResampleLineOk(c) ==
  /\ c.err = ""
  /\ c.finished = 1
  /\ c.ids = [k \in 1..Len(c.w0) |-> k - 1]
  /\ c.strategy # "list" => IsSeedOrder(c.w0, c.strategy, [k \in 1..Len(c.seeds) |-> c.seeds[k] + 1])
  /\ Run(c, c.w0, c.seeds, c.cells)
==============================================================================
