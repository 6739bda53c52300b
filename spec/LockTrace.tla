------------------------------- MODULE LockTrace -------------------------------
(* Cells whose averaging was held up: it has to complete, and to act as one
   step (CellLocks). Two kinds of recordings:
   "cells":    several cells averaged concurrently
   "transfer": one cell, while weight is moved from a member to another event *)
EXTENDS TraceBase, Resampling

SetOf(seq) == {seq[k] + 1 : k \in 1..Len(seq)}

(* a cell is averaged, or left alone if others have made it invalid *)
RECURSIVE Explained(_, _, _)
Explained(f, cells, target) ==
  IF cells = {} THEN f = target
  ELSE \E c \in cells :
         \/ Explained(Averaged(f, c.members), cells \ {c}, target)
         \/ /\ Central(f, c.seed) >= 0 \/ WeightOf(f, c.members, 1) < 0
            /\ c.valid
            /\ Explained(f, cells \ {c}, target)

Moved(f, from, to, delta) ==
  [f EXCEPT ![from] = [k \in DOMAIN f[from] |-> f[from][k] - delta],
            ![to] = [k \in DOMAIN f[to] |-> f[to][k] + delta]]

LockLineOk(c) ==
  /\ c.err = ""
  /\ IF c.kind = "cells"
     THEN LET cells == {[n |-> k, seed |-> c.seeds[k] + 1, members |-> SetOf(c.members[k]),
                         valid |-> WeightOf(c.w0, SetOf(c.members[k]), 1) >= 0] : k \in 1..Len(c.members)}
          IN Explained(c.w0, cells, c.w)
     ELSE LET m == SetOf(c.members)
              from == c.other + 1
              to == c.sink + 1
          IN \/ c.w = Moved(Averaged(c.w0, m), from, to, c.delta)
             \/ c.w = Averaged(Moved(c.w0, from, to, c.delta), m)
==============================================================================
