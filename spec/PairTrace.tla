-------------------------------- MODULE PairTrace --------------------------------
(* Two recorded runs of the program with the same settings whose events that take
   part in the resampling are the same, in the same order. They have to give
   these events the same weights, unless the outcome is not unique.
   x: weights in outputs, equal if and only if the floating-point numbers are. *)
EXTENDS TraceBase
R == INSTANCE Run

Outputs(c, outs) == R!Records([i \in 1..Len(outs) |-> outs[i][1]])
Evs(c) == LET recs == R!Records(c.files)
          IN [k \in 1..Len(recs) |-> R!EF!EventOf(recs[k].fmt, recs[k].rec, c.names)]
Selected(c, evs) == R!Participating([k \in 1..Len(evs) |-> R!Objects(c, evs[k])])

WeightsOut(c, rec) == LET cols == R!EF!Columns(rec, c.names) IN [j \in 1..Len(cols) |-> rec.x[cols[j]]]

PairLineOk(p) ==
  LET a == p[1]
      b == p[2]
      ea == Evs(a)
      eb == Evs(b)
      pa == TLCEval(Selected(a, ea))
      pb == TLCEval(Selected(b, eb))
      w == TLCEval(R!Outcome(a, ea, [k \in 1..Len(ea) |-> R!Objects(a, ea[k])], pa))
      oa == Outputs(a, a.outs)
      ob == Outputs(b, b.outs)
  IN /\ a.rc = 0 /\ b.rc = 0 /\ a.intact /\ b.intact
     /\ \A i \in 1..Len(a.outs) : a.outs[i] # <<>>
     /\ \A i \in 1..Len(b.outs) : b.outs[i] # <<>>
     \* the runs are comparable
     /\ Assert(Len(pa) = Len(pb) /\ \A k \in 1..Len(pa) : ea[pa[k]].w = eb[pb[k]].w, "different samples")
     /\ \/ pa # <<>> /\ w = <<>>
        \/ /\ Len(oa) = Len(ea) /\ Len(ob) = Len(eb)
           /\ \A k \in 1..Len(pa) : WeightsOut(a, oa[pa[k]].rec) = WeightsOut(b, ob[pb[k]].rec)
================================================================================
