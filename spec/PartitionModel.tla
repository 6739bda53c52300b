----------------------------- MODULE PartitionModel -----------------------------
(* From samples to partitions, as implemented: every vantage-point tree that the
   construction can produce, with a limited number of layers, is flattened in
   breadth-first order and then decides about all points, in the sample or not. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N,       \* points
          M,       \* largest distance
          Depth,   \* layers
          Variant  \* "ok", or the name of a broken design

VARIABLES d, sample, tree, queue, vp
vars == <<d, sample, tree, queue, vp>>
V == INSTANCE VPTree WITH d <- 0, tree <- 0, q <- 0, limit <- 0, ans <- 0, done <- 0, Metric <- TRUE
INSTANCE Partition

Enough == IF Variant = "small" THEN Pow2(Depth) ELSE MinSample(Pow2(Depth))

Init ==
  /\ d \in V!Metrics
  /\ sample \in {1..m : m \in Enough..N}
  /\ tree \in V!Trees(d, sample, Depth)
  /\ queue = <<tree>>
  /\ vp = <<>>

Step ==
  /\ queue # <<>>
  /\ LET t == Head(queue)
     IN IF t.kind # "node" THEN queue' = Tail(queue) /\ UNCHANGED vp
        ELSE /\ vp' = Append(vp, [pt |-> t.pt, r |-> IF Variant = "mean" THEN t.r \div 2 ELSE t.r])
             /\ queue' = IF Variant = "swapped" THEN Tail(queue) \o <<t.outside, t.inside>>
                         ELSE Tail(queue) \o <<t.inside, t.outside>>
  /\ UNCHANGED <<d, sample, tree>>
Next == Step \/ (queue = <<>> /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

D(i, p) == V!At(d, vp[i].pt, p)
Complete == queue = <<>> => Len(vp) = Pow2(Depth) - 1
Halved == queue = <<>> /\ Len(vp) = Pow2(Depth) - 1 => Balanced(vp, D, sample, 1)
(* every region is one of the leaves, and points at distance zero share theirs *)
Regions ==
  queue = <<>> /\ Len(vp) = Pow2(Depth) - 1 =>
    \A p \in 1..N : /\ Region(vp, D, p) \in 0..NumRegions(vp) - 1
                    /\ \A o \in 1..N : V!At(d, p, o) = 0 => Region(vp, D, p) = Region(vp, D, o)
=================================================================================
