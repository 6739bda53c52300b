--------------------------------- MODULE IoTrace ---------------------------------
(* Recorded histories of event I/O objects on real files. files: the inputs;
   ops: <<kind, argument>>, res: their results; outs: the output files as they are
   at the end (empty sequence: cannot be read as an event file). *)
EXTENDS TraceBase, EventFile, EventIO

AllRecs(files) ==
  FoldLeft(LAMBDA acc, f : acc \o [i \in 1..Len(f.recs) |-> [fmt |-> f.fmt, rec |-> f.recs[i]]], <<>>, files)

Before(files, i) == SumSeq([k \in 1..(i - 1) |-> Len(files[k].recs)])
AllUpdated(c, ws) ==
  /\ Len(c.outs) = Len(c.files)
  /\ \A i \in 1..Len(c.files) :
       /\ c.outs[i] # <<>>
       /\ LET b == Before(c.files, i)
          IN Updated(c.files[i], c.names, SubSeq(ws, b + 1, b + Len(c.files[i].recs)), c.outs[i][1])

ResultOk(evs, names, s, op, r, hints) ==
  CASE s.res[1] = "ev" ->
         LET e == evs[s.res[2]] IN r[1] = "ev" /\ SameEvent(r[2], EventOf(e.fmt, e.rec, names))
    [] s.res[1] = "hint" -> r[1] = "hint" /\ (hints => r[2] <= s.res[2] /\ (r[3] = -1 \/ r[3] >= s.res[2]))
    [] OTHER -> r = s.res

(* done: the last complete update, if nothing has touched the outputs since *)
RECURSIVE Play(_, _, _, _, _, _)
Play(c, evs, k, st, hints, done) ==
  IF k > Len(c.ops) THEN done = <<>> \/ AllUpdated(c, done[1])
  ELSE LET op == c.ops[k]
           s == Step(Len(evs), st, op)
           over == Complete(Len(evs), st, op, s.res, c.single)
       IN /\ ResultOk(evs, c.names, s, op, c.res[k], hints)
          /\ Play(c, evs, k + 1, s.st,
                  IF op[1] = "all" THEN Len(op[2]) >= Len(evs) ELSE IF op[1] = "rewind" THEN TRUE ELSE hints,
                  IF over THEN <<s.st.log>>
                  ELSE IF op[1] \in {"hint", "rewind"} THEN done ELSE <<>>)

IoLineOk(c) ==
  LET evs == AllRecs(c.files)
  IN /\ c.err = ""
     /\ Len(c.res) = Len(c.ops)
     /\ Play(c, evs, 1, Start, TRUE, <<>>)
================================================================================
