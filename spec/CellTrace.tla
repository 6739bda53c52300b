------------------------------ MODULE CellTrace ------------------------------
(* Recorded cell collections. Lines:
     kept  the retained cells, as lists of event numbers, and all cells seen,
           with radius, number of members, weight and event numbers
     seen  the cells an observer was shown in a run, and the cells of that run *)
EXTENDS TraceBase, CellCollection

CONSTANT Capacity

Range(s) == {s[i] : i \in DOMAIN s}

KeptOk(x) ==
  /\ x.err = ""
  (* retained cells are seen cells, with the right members, each once *)
  /\ \A i \in DOMAIN x.kept : \E j \in DOMAIN x.seen : Range(x.kept[i]) = Range(x.seen[j].ev)
  /\ \A i, j \in DOMAIN x.kept : Range(x.kept[i]) = Range(x.kept[j]) => i = j
  /\ LET K == SelectSeq(x.seen, LAMBDA c : \E i \in DOMAIN x.kept : Range(x.kept[i]) = Range(c.ev))
     IN Complete(K, x.seen, Capacity)

(* cells with their seeds, in no particular order *)
SeenOk(x) ==
  /\ x.err = ""
  /\ x.finished = 1
  /\ Len(x.observed) = Len(x.cells)
  /\ {Range(x.observed[i].ev) : i \in DOMAIN x.observed} = {Range(x.cells[i].ev) : i \in DOMAIN x.cells}
  /\ \A i \in DOMAIN x.observed : \E j \in DOMAIN x.cells :
       /\ Range(x.observed[i].ev) = Range(x.cells[j].ev)
       /\ x.observed[i].n = x.cells[j].n
       /\ x.observed[i].r = x.cells[j].r
       /\ x.observed[i].w = x.cells[j].w

CellLineOk(x) == IF x.kind = "kept" THEN KeptOk(x) ELSE SeenOk(x)
==============================================================================
