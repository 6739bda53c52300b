------------------------ MODULE CellCollectionModel ------------------------
(* Collections filled by several threads and merged in any order.

   Cells are numbered by the collection that sees them. Variants:
     ok        as the implementation is meant to work
     noshift   cells keep their numbers when collections are merged
     smallest  the wrong end is dropped when too many cells are left
     first     the first cells are kept, whatever their size
     copied    threads start from what was collected before, not from nothing
     counted   a merged collection forgets how many cells the other one saw *)
EXTENDS CellCollection, TLC, Json

CONSTANTS Variant, Capacity, MaxCells, NCollections, Values, Emit

VARIABLES
  col,       \* collections: [count, byr, byn, byw, first], maps from numbers to cells
  seen,      \* what each collection was shown: sequence of cells
  live,      \* collections in use
  cells,     \* number of cells so far
  prog       \* what happened
vars == <<col, seen, live, cells, prog>>

Empty == [count |-> 0, kept |-> [f \in Criteria |-> {}], first |-> {}]

(* an entry: number and cell. The identity of a cell is its place in the program *)
Entry(num, c) == [num |-> num, cell |-> c]
Lower(f, a, b) ==
  \/ a.cell[f] < b.cell[f]
  \/ a.cell[f] = b.cell[f] /\ a.num < b.num

RECURSIVE Drop(_, _)
Drop(E, f) ==
  IF Cardinality(E) <= Capacity THEN E
  ELSE LET low  == CHOOSE e \in E : \A x \in E \ {e} : Lower(f, e, x)
           high == CHOOSE e \in E : \A x \in E \ {e} : Lower(f, x, e)
       IN Drop(E \ {IF Variant = "smallest" THEN high ELSE low}, f)

(* a map has one entry for each value and number *)
Add(E, f, e) == {x \in E : ~(x.cell[f] = e.cell[f] /\ x.num = e.num)} \cup {e}
RECURSIVE AddAll(_, _, _)
AddAll(E, f, X) ==
  IF X = {} THEN E ELSE LET e == CHOOSE x \in X : TRUE IN AddAll(Add(E, f, e), f, X \ {e})

Collected(s, c) ==
  LET e == Entry(s.count, c)
      put(f) ==
        IF Cardinality(s.kept[f]) < Capacity THEN Add(s.kept[f], f, e)
        ELSE LET low == CHOOSE x \in s.kept[f] : \A y \in s.kept[f] \ {x} : Lower(f, x, y)
             IN IF c[f] > low.cell[f] /\ Variant # "first"
                THEN Add(s.kept[f] \ {low}, f, e) ELSE s.kept[f]
  IN [count |-> s.count + 1, kept |-> [f \in Criteria |-> put(f)],
      first |-> IF s.count < Capacity THEN s.first \cup {e} ELSE s.first]

Shift(E, k) == {[e EXCEPT !.num = @ + (IF Variant = "noshift" THEN 0 ELSE k)] : e \in E}

Merged(a, b) ==
  [count |-> IF Variant = "counted" THEN a.count ELSE a.count + b.count,
   kept |-> [f \in Criteria |-> Drop(AddAll(a.kept[f], f, Shift(b.kept[f], a.count)), f)],
   first |-> a.first \cup
     {e \in Shift(b.first, a.count) :
        Cardinality(a.first) + Cardinality({x \in b.first : x.num <= e.num - a.count}) <= Capacity}]

Init ==
  /\ col = [i \in 1..NCollections |-> Empty]
  /\ seen = [i \in 1..NCollections |-> <<>>]
  /\ live = 1..NCollections
  /\ cells = 0
  /\ prog = <<>>

(* the next cell of the collection; k identifies it *)
Collect(i) ==
  /\ cells < MaxCells
  /\ \E r, n, w \in Values :
       LET c == [r |-> r, n |-> n, w |-> w, k |-> cells] IN
       /\ col' = [col EXCEPT ![i] = Collected(@, c)]
       /\ seen' = [seen EXCEPT ![i] = Append(@, c)]
       /\ prog' = IF Emit THEN Append(prog, <<0, i - 1, r, n, w>>) ELSE prog
  /\ cells' = cells + 1
  /\ UNCHANGED live

Merge(i, j) ==
  /\ i # j
  /\ live' = live \ {j}
  /\ col' = [col EXCEPT ![i] = Merged(@, col[j]), ![j] = Empty]
  /\ seen' = [seen EXCEPT ![i] = @ \o seen[j], ![j] = <<>>]
  /\ prog' = IF Emit THEN Append(prog, <<1, i - 1, j - 1>>) ELSE prog
  /\ UNCHANGED cells

(* a collection for another thread *)
Fork(i) ==
  /\ Variant = "copied"
  /\ \E j \in 1..NCollections \ live :
       /\ live' = live \cup {j}
       /\ col' = [col EXCEPT ![j] = col[i]]
       /\ UNCHANGED <<seen, cells, prog>>

Next ==
  \E i \in live :
    \/ Collect(i)
    \/ Fork(i)
    \/ \E j \in live : Merge(i, j)

Spec == Init /\ [][Next]_vars

(* what a collection tells: cells by number, members of equal numbers together *)
Told(s) ==
  LET E == UNION {s.kept[f] : f \in Criteria} \cup s.first
      N == {e.num : e \in E}
  IN [m \in N |-> {e.cell : e \in {x \in E : x.num = m}}]

RightMembers ==
  \A i \in live : \A m \in DOMAIN Told(col[i]) :
    LET C == Told(col[i])[m] IN
    /\ Cardinality(C) = 1
    /\ \E q \in DOMAIN seen[i] : seen[i][q] \in C

Once ==
  \A i \in live : \A m, p \in DOMAIN Told(col[i]) :
    Told(col[i])[m] = Told(col[i])[p] => m = p

RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})

Largest ==
  \A i \in live :
    LET K == ToSeq(UNION {Told(col[i])[m] : m \in DOMAIN Told(col[i])})
    IN Complete(K, seen[i], Capacity)

Emitted ==
  (Emit /\ cells = MaxCells /\ Cardinality(live) = 1) => PrintT("CASE " \o ToJson(prog))
=============================================================================
