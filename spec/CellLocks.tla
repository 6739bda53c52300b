------------------------------- MODULE CellLocks -------------------------------
(* How averaging a cell is made atomic: one write lock per event, all members
   are locked before the first weight is read. Every cell is a sequence of
   events in the order in which they were added. Refines one atomic averaging
   step per cell, in the order in which the last locks are taken. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, Cells, Design   \* "sorted", "insertion", "unlockedsum", "shortlocks"

P == 1..N
C == 1..Cells
Injective(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
CellSeqs == UNION {{s \in [1..k -> P] : Injective(s)} : k \in 1..N}
Weight0 == [i \in P |-> (IF i % 2 = 1 THEN 7 - i ELSE i - 3) * 216]

Ascending(s) == CHOOSE t \in [1..Len(s) -> P] :
  /\ {t[k] : k \in DOMAIN t} = {s[k] : k \in DOMAIN s}
  /\ \A k \in 1..Len(s) - 1 : t[k] < t[k + 1]

VARIABLES cell, owner, pc, pos, sum, w, ghost
vars == <<cell, owner, pc, pos, sum, w, ghost>>

LockOrder(c) == IF Design = "insertion" THEN cell[c] ELSE Ascending(cell[c])
Mem(c) == {cell[c][k] : k \in 1..Len(cell[c])}

RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumSet(f, S \ {x})
Avg(f, S) == [i \in P |-> IF i \in S THEN SumSet(f, S) \div Cardinality(S) ELSE f[i]]

Init ==
  /\ cell \in [C -> CellSeqs]
  /\ owner = [i \in P |-> 0]
  /\ pc = [c \in C |-> IF Design = "unlockedsum" THEN "read" ELSE "lock"]
  /\ pos = [c \in C |-> 1]
  /\ sum = [c \in C |-> 0]
  /\ w = Weight0
  /\ ghost = Weight0

Advance(c, next) ==
  IF pos[c] = Len(cell[c])
  THEN pos' = [pos EXCEPT ![c] = 1] /\ pc' = [pc EXCEPT ![c] = next]
  ELSE pos' = [pos EXCEPT ![c] = @ + 1] /\ UNCHANGED pc

Lock(c) ==
  /\ pc[c] = "lock"
  /\ LET e == LockOrder(c)[pos[c]] IN owner[e] = 0 /\ owner' = [owner EXCEPT ![e] = c]
  /\ Advance(c, IF Design = "unlockedsum" THEN "write" ELSE "read")
  \* linearisation point: the last lock
  /\ ghost' = IF pos[c] = Len(cell[c]) THEN Avg(ghost, Mem(c)) ELSE ghost
  /\ UNCHANGED <<cell, sum, w>>

Read(c) ==
  /\ pc[c] = "read"
  /\ sum' = [sum EXCEPT ![c] = @ + w[LockOrder(c)[pos[c]]]]
  /\ Advance(c, IF Design = "unlockedsum" THEN "lock" ELSE "write")
  /\ IF Design = "shortlocks"
     THEN owner' = [owner EXCEPT ![LockOrder(c)[pos[c]]] = 0] ELSE UNCHANGED owner
  /\ UNCHANGED <<cell, w, ghost>>

Write(c) ==
  /\ pc[c] = "write"
  /\ w' = [w EXCEPT ![LockOrder(c)[pos[c]]] = sum[c] \div Len(cell[c])]
  /\ Advance(c, "unlock")
  /\ UNCHANGED <<cell, owner, sum, ghost>>

Unlock(c) ==
  /\ pc[c] = "unlock"
  /\ owner' = [owner EXCEPT ![LockOrder(c)[pos[c]]] = IF @ = c THEN 0 ELSE @]
  /\ Advance(c, "done")
  /\ UNCHANGED <<cell, sum, w, ghost>>

Step(c) == Lock(c) \/ Read(c) \/ Write(c) \/ Unlock(c)
Done == \A c \in C : pc[c] = "done"
Next == (\E c \in C : Step(c)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A c \in C : WF_vars(Step(c))

(* whoever finds an event unlocked sees the weights of the atomic averaging *)
Atomic == \A i \in P : owner[i] = 0 => w[i] = ghost[i]
Conserved == Done => SumSet(w, P) = SumSet(Weight0, P)
(* no deadlock: TLC's deadlock check, and *)
Terminates == <>Done
==============================================================================
