------------------------------- MODULE CombinedIO -------------------------------
(* Design of the combined event I/O object: one input/output pair is open at a
   time; opening truncates the output. Refines the cursor of EventIO.
   RULE: "ok", or negative controls: "hint" (rewinding does not reset the number
   of events read), "stop" (updates end with the first file), "skip" (opening the
   next file on reading drops its first event), "first" (a complete update does
   not start from the first file), "open" (updates do not finish their files). *)
EXTENDS EventIO, TLC
CONSTANTS MaxOps, MaxFiles, MaxEvents, RULE
VARIABLES sizes, nops, abs, ares, \* cursor and its last result
          idx, open, fpos, nread, res, outs, lastop
vars == <<sizes, nops, abs, ares, idx, open, fpos, nread, res, outs, lastop>>

F == Len(sizes)
N == SumSeq(sizes)
Before(i) == SumSeq(SubSeq(sizes, 1, i - 1))
NoOut == [recs |-> <<>>, done |-> FALSE]

Init ==
  /\ sizes \in UNION {[1..k -> 0..MaxEvents] : k \in 0..MaxFiles}
  /\ nops = 0 /\ abs = Start /\ ares = <<"ok">> /\ lastop = <<"rewind">>
  /\ idx = 1 /\ open = (sizes # <<>>) /\ fpos = 0 /\ nread = 0 /\ res = <<"ok">>
  /\ outs = [i \in 1..Len(sizes) |-> NoOut]

(* state after moving on to the first file from i on that has a next event, for reading *)
RECURSIVE Seek(_)
Seek(i) == IF i >= F THEN F ELSE IF sizes[i] > 0 THEN i ELSE Seek(i + 1)

ReadNext ==
  LET here == open /\ fpos < sizes[idx]
      first == IF open THEN idx + 1 ELSE idx
      to == IF here THEN idx ELSE IF first > F THEN idx ELSE Seek(first)
      opened == IF here THEN {} ELSE {i \in first..to : i <= F}
      base == IF here THEN fpos ELSE IF opened = {} THEN fpos ELSE IF RULE = "skip" /\ open /\ sizes[to] > 0 THEN 1 ELSE 0
      got == to <= F /\ to >= 1 /\ F > 0 /\ base < sizes[to] /\ (here \/ opened # {})
  IN /\ outs' = [i \in 1..F |-> IF i \in opened THEN NoOut ELSE outs[i]]
     /\ idx' = to
     /\ open' = (open \/ opened # {})
     /\ fpos' = IF got THEN base + 1 ELSE base
     /\ nread' = IF got THEN nread + 1 ELSE nread
     /\ res' = IF got THEN <<"ev", Before(to) + base + 1>> ELSE <<"none">>

Rewind ==
  /\ open' = FALSE /\ idx' = 1 /\ fpos' = 0 /\ nread' = (IF RULE = "hint" THEN nread ELSE 0)
  /\ res' = <<"ok">> /\ UNCHANGED outs

Hint == res' = <<"hint", N - nread>> /\ UNCHANGED <<idx, open, fpos, nread, outs>>

(* one update: finish all files that are at their end *)
Upd(w) ==
  LET stay == open /\ fpos < sizes[idx]
      start == IF open /\ ~stay THEN idx + 1 ELSE idx
      nxt == {i \in start..F : sizes[i] > 0}
      to == IF stay THEN idx
            ELSE IF nxt = {} \/ (RULE = "stop" /\ open) THEN F + 1
            ELSE CHOOSE i \in nxt : \A j \in nxt : i <= j
      base == IF stay THEN fpos ELSE 0
      finished == {i \in idx..(to - 1) : i <= F}
      fresh == IF stay THEN {} ELSE {i \in start..to : i <= F}
      out(i) == IF i \in fresh THEN NoOut ELSE outs[i]
  IN /\ outs' = [i \in 1..F |->
           IF i = to THEN [out(i) EXCEPT !.recs = Append(@, <<base + 1, w>>)]
           ELSE IF i \in finished /\ RULE # "open" THEN [out(i) EXCEPT !.done = TRUE] ELSE out(i)]
     /\ idx' = to
     /\ open' = (to <= F)
     /\ fpos' = IF to <= F THEN base + 1 ELSE 0
     /\ nread' = IF to <= F THEN nread + 1 ELSE nread
     /\ res' = IF to <= F THEN <<"true">> ELSE <<"false">>

All(ws) ==
  LET k == IF Len(ws) < N THEN Len(ws) ELSE N
      from == IF RULE = "first" /\ open THEN idx ELSE 1
  IN /\ outs' = [i \in 1..F |->
           IF i < from THEN outs[i]
           ELSE [recs |-> LET m == IF k - Before(i) < 0 THEN 0 ELSE IF k - Before(i) > sizes[i] THEN sizes[i] ELSE k - Before(i)
                          IN [j \in 1..m |-> <<j, ws[Before(i) + j]>>],
                 done |-> TRUE]]
     /\ open' = FALSE /\ idx' = F + 1 /\ fpos' = 0 /\ nread' = k
     /\ res' = <<"n", k>>

Ops == {<<"next">>, <<"rewind">>, <<"hint">>, <<"upd", nops + 1>>,
        <<"all", [i \in 1..N |-> 100 + i]>>, <<"all", [i \in 1..(IF N > 0 THEN N - 1 ELSE 0) |-> 200 + i]>>}

(* after too few weights only rewinding and complete updates are specified *)
Short == lastop[1] = "all" /\ Len(lastop[2]) < N
Next ==
  /\ nops < MaxOps
  /\ \E op \in Ops :
       /\ Short => op[1] \in {"rewind", "all"}
       /\ nops' = nops + 1 /\ lastop' = op
       /\ LET s == Step(N, abs, op) IN abs' = s.st /\ ares' = s.res
       /\ CASE op[1] = "next" -> ReadNext
            [] op[1] = "rewind" -> Rewind
            [] op[1] = "hint" -> Hint
            [] op[1] = "upd" -> Upd(op[2])
            [] op[1] = "all" -> All(op[2])
  /\ UNCHANGED sizes
Spec == Init /\ [][Next]_vars

Refines == res = ares
HintOk == nread <= N /\ (~Short => nread = abs.pos)
(* complete outputs: every record of every file once, with its weights *)
Want(i) == [recs |-> [j \in 1..sizes[i] |-> <<j, abs.log[Before(i) + j]>>], done |-> TRUE]
OutputsOk == (nops > 0 /\ Complete(N, abs, lastop, ares, FALSE)) => \A i \in 1..F : outs[i] = Want(i)
================================================================================
