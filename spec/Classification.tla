----------------------------- MODULE Classification -----------------------------
(* Building a partition from files of a sample, and splitting files with it.

   c.exact: momenta and distances are integers (in units of 1 / c.ds), and
   everything is derived from the files. Otherwise distances from the vantage
   points are given by their rank, c.ranks[i][p] for event p, with the rank of the
   radius at the end.
   c.n regions; c.sfiles and c.cfiles: files for the partition and to be split, with
   all events numbered in this order. A record has the complete text raw. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

EF == INSTANCE EventFile
Rn == INSTANCE Run
Ds == INSTANCE Distance
Pt == INSTANCE Partition

Events(c) ==
  LET recs == Rn!Records(c.sfiles \o c.cfiles)
  IN [k \in 1..Len(recs) |-> EF!EventOf(recs[k].fmt, recs[k].rec, <<>>)]
Count(files) == FoldLeft(LAMBDA a, f : a + Len(f.recs), 0, files)
Offset(c, f) == Count(c.sfiles) + Count(SubSeq(c.cfiles, 1, f - 1))

(* events with negative weight make up the sample *)
Sample(c) == LET evs == Events(c) IN {k \in 1..Count(c.sfiles) : c.neg[k]}

(* the partition, with radii and distances *)
Vp(c) == [i \in 1..Len(c.vp) |-> [pt |-> c.vp[i].pt + 1, r |-> IF c.exact THEN c.vp[i].r ELSE c.ranks[i][Len(c.ranks[i])]]]
Strip(objs) == [i \in 1..Len(objs) |-> <<objs[i][1], objs[i][3], objs[i][4], objs[i][5]>>]
Objs(c) == LET evs == Events(c) IN [k \in 1..Len(evs) |-> Rn!Objects(c, evs[k])]
Distances(c, objs) ==
  IF c.exact
  THEN [i \in 1..Len(c.vp) |-> [p \in 1..Len(objs) |-> Ds!Dist(Strip(c.vp[i].objs), objs[p], c.tau[1], c.tau[2], c.ds)]]
  ELSE c.ranks

(* a usable partition with the right number of regions *)
PartitionOk(c) ==
  LET sample == Sample(c)
      objs == TLCEval(IF c.exact THEN Objs(c) ELSE <<>>)
      vp == TLCEval(Vp(c))
      d == TLCEval(Distances(c, objs))
      D(i, p) == d[i][p]
  IN /\ Len(vp) = c.n - 1
     /\ \A i \in 1..Len(vp) :
          /\ vp[i].pt \in sample
          /\ c.exact => Rn!Cl!SameBag(Strip(c.vp[i].objs), objs[vp[i].pt])
          /\ \A k \in 1..i - 1 : vp[k].pt # vp[i].pt
     /\ Pt!Balanced(vp, D, sample, 1)

Regions(c) ==
  LET objs == TLCEval(IF c.exact THEN Objs(c) ELSE <<>>)
      vp == TLCEval(Vp(c))
      d == TLCEval(Distances(c, objs))
      D(i, p) == d[i][p]
  IN [f \in 1..Len(c.cfiles) |-> [i \in 1..Len(c.cfiles[f].recs) |-> Pt!Region(vp, D, Offset(c, f) + i)]]

TooSmall(c) == Cardinality(Sample(c)) < Pt!MinSample(c.n)

(* records in output files are in the right one *)
RightRegion(c) ==
  LET reg == Regions(c)
  IN \A f \in 1..Len(c.cfiles) :
       /\ Len(c.couts[f]) = c.n
       /\ \A r \in 1..c.n : c.couts[f][r] # <<>> =>
            \A k \in 1..Len(c.couts[f][r][1].recs) :
              \A i \in 1..Len(c.cfiles[f].recs) :
                c.cfiles[f].recs[i].raw = c.couts[f][r][1].recs[k] => reg[f][i] = r - 1

(* and they are all there *)
Lossless(c) ==
  LET reg == TLCEval(Regions(c))
  IN \A f \in 1..Len(c.cfiles) :
       LET recs == c.cfiles[f].recs IN
       /\ Len(c.couts[f]) = c.n
       /\ \A r \in 1..c.n :
            LET mine == SelectSeq([i \in 1..Len(recs) |-> i], LAMBDA i : reg[f][i] = r - 1)
            IN /\ c.couts[f][r] # <<>>
               /\ LET o == c.couts[f][r][1]
                  IN /\ o.head = c.cfiles[f].head /\ o.foot = c.cfiles[f].foot /\ o.footers = 1
                     /\ o.recs = [k \in 1..Len(mine) |-> recs[mine[k]].raw]
                     \* read by cres
                     /\ Len(o.got) = Len(mine)
                     /\ \A k \in 1..Len(mine) :
                          EF!SameEvent(o.got[k], EF!EventOf(c.cfiles[f].fmt, recs[mine[k]], <<>>))
                     /\ o.err = ""
=================================================================================
