--------------------------- MODULE CellCollection ---------------------------
(* C21: which cells a collection retains.

   A cell is a record with its radius r, its number of members n and its
   accumulated weight w. A collection remembers cells under three criteria, up
   to a capacity for each, and the cells it saw first. *)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b

Criteria == {"r", "n", "w"}

(* number of cells with at least the given value *)
AtLeast(S, f, t) == Cardinality({i \in DOMAIN S : S[i][f] >= t})

(* the retained cells comprise the largest ones of those seen, up to the
   capacity: however high the bar, as many retained cells reach it as seen
   cells do. Both arguments are sequences of cells. *)
KeepsLargest(kept, seen, f, capacity) ==
  \A i \in DOMAIN seen :
    AtLeast(kept, f, seen[i][f]) >= Min2(capacity, AtLeast(seen, f, seen[i][f]))

KeepsAll(kept, seen, capacity) ==
  Len(seen) <= capacity => Len(kept) = Len(seen)

Complete(kept, seen, capacity) ==
  /\ \A f \in Criteria : KeepsLargest(kept, seen, f, capacity)
  /\ KeepsAll(kept, seen, capacity)
=============================================================================
