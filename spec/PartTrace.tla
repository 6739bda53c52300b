-------------------------------- MODULE PartTrace --------------------------------
(* Recorded partitions of points whose distances d are known: the first c.sample
   points are the sample, and all are assigned to regions. *)
EXTENDS TraceBase, Partition

PartLineOk(c) ==
  LET vp == [i \in 1..Len(c.vp) |-> [pt |-> c.vp[i][1] + 1, r |-> c.vp[i][2]]]
      Max(a, b) == IF a < b THEN b ELSE a
      Abs(x) == IF x < 0 THEN -x ELSE x
      far(a, b) == LET RECURSIVE m(_) m(k) == IF k = 0 THEN 0 ELSE Max(Abs(a[k] - b[k]), m(k - 1)) IN m(Len(a))
      D(i, p) == IF Len(c.d) > 0 THEN c.d[vp[i].pt][p] ELSE far(c.x[vp[i].pt], c.x[p])
  IN /\ c.err = ""
     /\ c.n = Pow2(c.depth) /\ NumRegions(vp) = c.n
     /\ \A i \in 1..Len(vp) : vp[i].pt \in 1..c.sample /\ \A k \in 1..i - 1 : vp[k].pt # vp[i].pt
     /\ Len(c.regions) = IF Len(c.d) > 0 THEN Len(c.d) ELSE Len(c.x)
     /\ \A p \in 1..Len(c.regions) : c.regions[p] = Region(vp, D, p)
     /\ Balanced(vp, D, 1..c.sample, 1)
================================================================================
