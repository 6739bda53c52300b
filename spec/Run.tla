----------------------------------- MODULE Run -----------------------------------
(* A complete run of cell resampling, from input files to output files.

   Settings c: jet, lep, pho, nu as for Clustering; tau = <<tn, td>>, ds as for
   Distance (distances in units of 1/ds); limit on the distance in these units;
   strategy; m, the minimum weight; names of further weights. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

EF == INSTANCE EventFile
Cl == INSTANCE Clustering
Ds == INSTANCE Distance
Rs == INSTANCE Resampling
Uw == INSTANCE Unweight

Abs(x) == IF x < 0 THEN -x ELSE x

(* all records of all files, in order *)
Records(files) ==
  FoldLeft(LAMBDA acc, f : acc \o [i \in 1..Len(f.recs) |-> [fmt |-> f.fmt, rec |-> f.recs[i]]], <<>>, files)

(* objects that an event consists of: <<type, px, py, pz>>, energies do not matter.
   Samples are chosen such that this is unambiguous *)
Objects(c, e) ==
  LET all == TLCEval(Cl!Objects(c, e.out))
      o == CHOOSE x \in all : TRUE
  IN IF \A x \in all : Cl!SameBag(x, o)
     THEN [i \in 1..Len(o) |-> <<o[i][1], o[i][3], o[i][4], o[i][5]>>]
     ELSE Assert(FALSE, <<"ambiguous objects", e>>)

(* ---- resampling, if all orders are strict ---- *)
Nearest(w, D(_, _), s, S) == {x \in S : \A y \in S : D(s, x) <= D(s, y)}

RECURSIVE Grow(_, _, _, _, _, _)
Grow(w, D(_, _), limit, s, members, total) ==
  LET S == {x \in 1..Len(w) \ members : D(s, x) <= limit}
      near == Nearest(w, D, s, S)
  IN IF total >= 0 \/ S = {} THEN members
     ELSE IF Cardinality(near) > 1 THEN {}
     ELSE LET x == CHOOSE y \in near : TRUE
          IN Grow(w, D, limit, s, members \cup {x}, total + Rs!Central(w, x))

(* negative events in the order of the strategy; empty if there is no unique one *)
SeedOrder(w, strategy) ==
  LET neg == SetToSortSeq(Rs!Negative(w),
               LAMBDA i, j : CASE strategy = "any" -> i < j
                               [] strategy = "most_negative" -> Rs!Central(w, i) < Rs!Central(w, j)
                               [] strategy = "least_negative" -> Rs!Central(w, i) > Rs!Central(w, j))
  IN neg
Tied(w, strategy) ==
  strategy # "any" /\ \E i, j \in Rs!Negative(w) : i # j /\ Rs!Central(w, i) = Rs!Central(w, j)

(* final weights, <<>> if they are not unique *)
RECURSIVE Resampled(_, _, _, _)
Resampled(w, D(_, _), limit, seeds) ==
  IF seeds = <<>> THEN w
  ELSE LET s == Head(seeds)
       IN IF Rs!Central(w, s) >= 0 THEN Resampled(w, D, limit, Tail(seeds))
          ELSE LET m == Grow(w, D, limit, s, {s}, Rs!Central(w, s))
               IN IF m = {} THEN <<>>
                  ELSE IF ~Rs!Divides(w, m) THEN Assert(FALSE, "indivisible")
                  ELSE Resampled(TLCEval(Rs!Averaged(w, m)), D, limit, Tail(seeds))

(* ---- the outcome ---- *)
(* events without objects do not take part *)
Participating(objs) == SelectSeq([k \in 1..Len(objs) |-> k], LAMBDA k : objs[k] # <<>>)

(* user-defined distances: of the numbers of the events, or of their total momenta *)
Custom(c) == IF "custom" \in DOMAIN c THEN c.custom ELSE ""
CustomDist(c, a, b, o, p) ==
  LET g(k) == (k - 1) * k
      px(x) == FoldLeft(LAMBDA acc, y : acc + y[2], 0, x)
      d == Abs(g(a) - g(b))
  IN c.factor * (CASE Custom(c) = "id" -> d
                   [] Custom(c) = "inv" -> IF d = 0 THEN 0 ELSE 2000 - d
                   [] Custom(c) = "px" -> Abs(px(o) - px(p)))

(* weights after resampling, in the order of the participating events *)
Outcome(c, evs, objs, part) ==
  LET n == Len(part)
      d == TLCEval([i \in 1..n |-> [j \in 1..n |->
              IF i >= j THEN 0
              ELSE IF Custom(c) # "" THEN CustomDist(c, part[i], part[j], objs[part[i]], objs[part[j]])
              ELSE Ds!Dist(objs[part[i]], objs[part[j]], c.tau[1], c.tau[2], c.ds)]])
      D(i, j) == IF i < j THEN d[i][j] ELSE d[j][i]
      w == [k \in 1..n |-> evs[part[k]].w]
  IN IF Tied(w, c.strategy) THEN <<>> ELSE Resampled(w, D, c.limit, SeedOrder(w, c.strategy))

Index(part, k) == CHOOSE i \in 1..Len(part) : part[i] = k
In(part, k) == \E i \in 1..Len(part) : part[i] = k

(* without unweighting *)
Exact(c, recs, outs, part, w) ==
  \A k \in 1..Len(recs) :
    EF!Rewritten(recs[k].rec, c.names, IF In(part, k) THEN w[Index(part, k)] ELSE <<>>, outs[k].rec)

(* with unweighting: participating events without central weight were discarded.
   Output weights are in units of 1 / c.os. *)
Unweighted(c, recs, outs, part, w) ==
  LET kept == SelectSeq([i \in 1..Len(part) |-> i], LAMBDA i : outs[part[i]].rec.v[1] # 0)
      new == Uw!New(w, c.m, kept)
      ok(i, j, v) == LET den == Uw!Den(w, c.m, kept, i)
                     IN Abs(v * den - Uw!Num(w, c.m, kept, i, j) * c.os) <= 2 * Abs(den)
  IN Uw!Orig(w) = 0 \/
     /\ \A i \in 1..Len(part) : Abs(w[i][1]) >= c.m => \E k \in 1..Len(kept) : kept[k] = i
     /\ \A k \in 1..Len(kept) : w[kept[k]][1] # 0
     /\ \A k \in 1..Len(recs) :
          IF ~In(part, k) THEN EF!Same(recs[k].rec, outs[k].rec)
          ELSE LET i == Index(part, k)
               IN IF \E x \in 1..Len(kept) : kept[x] = i
                  THEN EF!RewrittenBy(recs[k].rec, c.names, LAMBDA j, v : ok(i, j, v), outs[k].rec)
                  ELSE EF!RewrittenBy(recs[k].rec, c.names, LAMBDA j, v : v = 0, outs[k].rec)

(* the sum of the weights does not change, unless nothing was kept or what was
   kept cancels. Weights in units of 1 / c.os *)
SumKept(c, recs, outs, part, w) ==
  LET sum(rs) == FoldLeft(LAMBDA a, k : a + rs[k].rec.v[1], 0, part)
      kept == SelectSeq([i \in 1..Len(part) |-> i], LAMBDA i : outs[part[i]].rec.v[1] # 0)
      before == sum(recs) * c.os
  IN Uw!New(w, c.m, kept) # 0 => Abs(sum(outs) - before) <= 1 + Len(part)

(* inputs files and outputs outs, each of which is <<file>> or empty *)
OutputsOk(c, files, outs) ==
  LET recs == Records(files)
      orecs == Records([i \in 1..Len(outs) |-> outs[i][1]])
      evs == [k \in 1..Len(recs) |-> EF!EventOf(recs[k].fmt, recs[k].rec, c.names)]
      objs == TLCEval([k \in 1..Len(recs) |-> Objects(c, evs[k])])
      part == TLCEval(Participating(objs))
      w == TLCEval(Outcome(c, evs, objs, part))
  IN /\ Len(outs) = Len(files)
     /\ \A i \in 1..Len(files) :
          /\ outs[i] # <<>>
          /\ EF!SameFrame(files[i], outs[i][1])
          /\ Len(outs[i][1].recs) = Len(files[i].recs)
     /\ \/ part # <<>> /\ w = <<>>  \* not unique
        \/ IF c.m = 0 THEN Exact(c, recs, orecs, part, w)
           ELSE Unweighted(c, recs, orecs, part, w) /\ SumKept(c, recs, orecs, part, w)

(* STRIPPER files belong to a contribution, whose cross section is given by a
   normalisation file in norms; weights are record weights times factor, a
   fraction *)
Norms(c, f) == {k \in 1..Len(c.norms) : c.norms[k].contribution = f.contribution}
FactorOk(c, files, f) ==
  LET total == FoldLeft(LAMBDA a, g : IF g.fmt = "stripper" /\ g.contribution = f.contribution THEN a + g.nevents ELSE a, 0, files)
  IN total = 0 \/ \A k \in Norms(c, f) : f.factor = <<c.norms[k].xs[1], c.norms[k].xs[2] * total>>
FactorsOk(c, files) == \A i \in 1..Len(files) : files[i].fmt = "stripper" => FactorOk(c, files, files[i])

(* runs that have to fail: an event does not have the weights asked for, a
   contribution has no cross section *)
MustFail(c, files) ==
  \/ \E f \in 1..Len(files) : \E i \in 1..Len(files[f].recs) : ~EF!HasWeights(files[f].recs[i], c.names)
  \/ \E i \in 1..Len(files) : files[i].fmt = "stripper" /\ Norms(c, files[i]) = {}
================================================================================
