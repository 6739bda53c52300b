-------------------------------- MODULE RunModel --------------------------------
(* A run of cell resampling as a state machine, from the records of two input
   files to the records of two output files, over all small samples. The weights
   in the second file are normalised by a factor. Checked: what the functions of
   module Run predict (they judge recorded runs of the real program), and the
   guarantees that users rely on.

   A sample is given by positions (0: no identified particles; otherwise the
   momentum of a single particle) and weights. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Positions, Weights, Limits, Strategies, MinWeights, Variant

R == INSTANCE Run

Unit == 216  \* (lcm of cell sizes)^(number of seeds)
Factor == 2
N == Len(CHOOSE p \in Positions : TRUE)
Names == <<"a", "b">>

VARIABLES c, pos, ws, cut, order, phase, evs, part, w, seeds, kept, out
sample == <<c, pos, ws, cut, order>>
vars == <<c, pos, ws, cut, order, phase, evs, part, w, seeds, kept, out>>

Parts(p) == IF p = 0 THEN <<>> ELSE <<<<1, 23, p, p, 0, 0>>>>
(* order: the columns in which the weights named a, b are; the column of c is not
   asked for *)
ColumnsOf(k, i) ==
  LET a == Unit * (1 - i)
      b == Unit * ws[i]
  IN IF k = 1 THEN [names |-> <<"0", "a", "b", "c">>, v |-> <<Unit * ws[i], a, b, 7>>]
     ELSE [names |-> <<"0", "b", "c", "a">>, v |-> <<Unit * ws[i], b, 7, a>>]
Record(i) ==
  LET x == ColumnsOf(IF i % 2 = 0 THEN order ELSE 1, i)
  IN [pre |-> i, post |-> -i, names |-> x.names, w |-> x.v, v |-> x.v, parts |-> Parts(pos[i])]
File(a, b) == [fmt |-> "hepmc", head |-> a, foot |-> b, recs |-> [i \in 1..(b - a) |-> Record(a + i)]]
(* as seen by the resampling; on disk, weights of the second file are divided by Factor *)
Files == <<File(0, cut), File(cut, N)>>
OnDisk(i, v) == IF i > cut THEN v \div Factor ELSE v
Normalised(i, v) == IF i > cut THEN v * Factor ELSE v

Init ==
  /\ pos \in Positions
  /\ ws \in Weights
  /\ cut \in 0..N
  /\ order \in 1..2
  /\ c \in [jet : {<<"antikt", 4000, 1>>}, lep : {<<>>}, pho : {<<>>}, nu : {FALSE}, tau : {<<0, 1>>}, ds : {1},
            limit : Limits, strategy : Strategies, m : MinWeights, os : {10}, names : {Names}]
  /\ phase = "read" /\ evs = <<>> /\ part = <<>> /\ w = <<>> /\ seeds = <<>> /\ kept = {} /\ out = <<>>

Recs == R!Records(Files)
D(i, j) == R!Ds!Dist(evs[part[i]].objs, evs[part[j]].objs, 0, 1, 1)

Read ==
  /\ phase = "read" /\ Len(evs) < N
  /\ LET i == Len(evs) + 1
         r == Recs[i].rec
         e == R!EF!EventOf("hepmc", [r EXCEPT !.v = [k \in 1..4 |-> Normalised(i, OnDisk(i, r.v[k]))]], Names)
     IN evs' = Append(evs, [id |-> i, w |-> e.w, objs |-> R!Objects(c, e)])
  /\ UNCHANGED <<phase, part, w, seeds, kept, out>>
StartResampling ==
  /\ phase = "read" /\ Len(evs) = N
  /\ part' = SelectSeq([k \in 1..N |-> k], LAMBDA k : evs[k].objs # <<>>)
  /\ w' = [k \in 1..Len(part') |-> evs[part'[k]].w]
  /\ seeds' = R!SeedOrder(w', c.strategy)
  /\ phase' = "resample"
  /\ UNCHANGED <<evs, kept, out>>

(* one cell after the other; among equally distant events, any may be next *)
RECURSIVE Cells(_, _, _)
Cells(s, members, total) ==
  LET S == {x \in 1..Len(w) \ members : D(s, x) <= c.limit}
      near == {x \in S : \A y \in S : D(s, x) <= D(s, y)}
  IN IF total >= 0 \/ S = {} THEN {members}
     ELSE UNION {Cells(s, members \cup {x}, total + w[x][1]) : x \in near}
Resample ==
  /\ phase = "resample" /\ seeds # <<>>
  /\ LET s == Head(seeds)
     IN IF w[s][1] >= 0 THEN UNCHANGED w
        ELSE \E m \in Cells(s, {s}, w[s][1]) : w' = R!Rs!Averaged(w, m)
  /\ seeds' = Tail(seeds)
  /\ UNCHANGED <<phase, evs, part, kept, out>>
Unweight ==
  /\ phase = "resample" /\ seeds = <<>>
  /\ IF c.m = 0 THEN kept' = DOMAIN w
     ELSE \E K \in SUBSET DOMAIN w :
            /\ \A i \in DOMAIN w : R!Abs(w[i][1]) >= c.m => i \in K
            /\ \A i \in K : w[i][1] # 0
            /\ kept' = K
  /\ phase' = "write"
  /\ UNCHANGED <<evs, part, w, seeds, out>>

KeptSeq == SelectSeq([i \in 1..Len(w) |-> i], LAMBDA i : i \in kept)
(* final weight number j of participant i, times c.os if there was unweighting *)
Final(i, j) ==
  IF c.m = 0 THEN w[i][j]
  ELSE IF i \notin kept THEN (IF Variant = "discarded" THEN w[i][j] * c.os ELSE 0)
  ELSE (R!Uw!Num(w, c.m, KeptSeq, i, j) * c.os) \div R!Uw!Den(w, c.m, KeptSeq, i)
Index(k) == IF Variant = "shifted" THEN k ELSE CHOOSE i \in 1..Len(part) : part[i] = k
Takes(k) == IF Variant = "shifted" THEN k <= Len(part) ELSE \E i \in 1..Len(part) : part[i] = k
Write ==
  /\ phase = "write" /\ Len(out) < N
  /\ LET k == Len(out) + 1
         r == Recs[k].rec
         cols == IF Variant = "position" THEN <<1, 2, 3>> ELSE R!EF!Columns(r, Names)
         new == [col \in 1..4 |-> IF Takes(k) /\ \E j \in 1..3 : cols[j] = col
                                  THEN Final(Index(k), CHOOSE j \in 1..3 : cols[j] = col) ELSE r.v[col]]
         disk == [col \in 1..4 |-> IF new[col] = r.v[col] THEN r.v[col]
                                   ELSE IF Variant = "factor" THEN Normalised(k, new[col]) ELSE new[col]]
     IN out' = Append(out, [r EXCEPT !.w = disk, !.v = disk])
  /\ UNCHANGED <<phase, evs, part, w, seeds, kept>>
Finish == phase = "write" /\ Len(out) = N /\ phase' = "done" /\ UNCHANGED <<evs, part, w, seeds, kept, out>>

Next == (Read \/ StartResampling \/ Resample \/ Unweight \/ Write \/ Finish) /\ UNCHANGED sample
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
Outs == <<<<[Files[1] EXCEPT !.recs = SubSeq(out, 1, cut)]>>, <<[Files[2] EXCEPT !.recs = SubSeq(out, cut + 1, N)]>>>>
Total(f(_), j) == FoldLeft(LAMBDA a, i : a + f(i), 0, [i \in 1..N |-> i])

(* what is expected of recorded runs holds for this machine *)
AsPredicted == phase = "done" => R!OutputsOk(c, Files, Outs)

(* the sum of each weight never changes while resampling *)
SumsKept ==
  phase \in {"resample", "write"} =>
    \A j \in 1..3 : R!Rs!Total(w, j) = R!Rs!Total([k \in 1..Len(part) |-> evs[part[k]].w], j)

(* no negative weights are left if cells are unlimited and the sum allows it *)
NoneNegative ==
  (phase = "write" /\ c.limit >= 1000 /\ R!Rs!Total(w, 1) >= 0) => R!Rs!Negative(w) = {}

(* events without identified particles are untouched, and the outcome for the
   others is the one for a sample without them *)
Untouched == phase = "done" => \A k \in 1..N : pos[k] = 0 => out[k] = Recs[k].rec

(* the output adds up to the input *)
OutputSum ==
  (phase = "done" /\ c.m = 0) =>
    Total(LAMBDA i : out[i].v[1], 1) = Total(LAMBDA i : Recs[i].rec.v[1], 1)
OutputSumUnweighted ==
  (phase = "done" /\ c.m > 0 /\ R!Uw!New(w, c.m, KeptSeq) # 0) =>
    LET s(x(_)) == FoldLeft(LAMBDA a, k : a + x(k), 0, part)
    IN R!Abs(s(LAMBDA k : out[k].v[1]) - c.os * s(LAMBDA k : Recs[k].rec.v[1])) <= 1 + Len(part)

(* weights that were not asked for *)
OthersUntouched ==
  phase = "done" => \A k \in 1..N : \A col \in 1..4 : Recs[k].rec.names[col] = "c" => out[k].w[col] = 7

(* named weights live in the same cells as the central one: weight b equals it *)
SameCells == phase \in {"resample", "write"} => \A i \in 1..Len(w) : w[i][1] = w[i][3]
SameCellsOut ==
  phase = "done" => \A k \in 1..N : \A col \in 1..4 : Recs[k].rec.names[col] = "b" => out[k].v[col] = out[k].v[1]

QuickPositions == {<<1, 2, 4>>, <<0, 1, 3>>, <<5, 0, 1>>, <<2, 2, 3>>, <<7, 1, 0>>, <<0, 3, 0>>}
AllWeights == [1..3 -> -2..2]
FewWeights == [1..3 -> {-2, -1, 1}]
================================================================================
