-------------------------------- MODULE CapiModel --------------------------------
(* Calls of several threads. What a thread retrieves is the message of its own last
   failure. Variant "shared": one last error for all threads; "kept": the first error
   is never replaced. *)
EXTENDS Capi, TLC, Json
CONSTANTS Variant, Threads, MaxMsg, MaxOps, Emit

VARIABLES last,  \* of the implementation
          own,   \* possible last errors of each thread
          hist,  \* [th, op, arg]
          got    \* result of the last retrieval
vars == <<last, own, hist, got>>

Msg(t, k) == [i \in 1..k |-> 10 * t + i]
Nothing == [th |-> 0, n |-> 0, r |-> [ret |-> 0, written |-> <<>>]]
Init == /\ last = [t \in Threads |-> NoError] /\ own = [t \in Threads |-> {NoError}]
        /\ hist = <<>> /\ got = Nothing

Record(t, op, arg) == hist' = Append(hist, <<t, op, arg>>)
Fail(t, k) ==
  LET m == Msg(t, k)
      Set(l) == IF Variant = "kept" /\ l # NoError THEN l ELSE m
  IN /\ last' = [u \in Threads |-> IF u = t \/ Variant = "shared" THEN Set(last[u]) ELSE last[u]]
     /\ own' = [own EXCEPT ![t] = Failed(m)]
     /\ got' = Nothing /\ Record(t, "fail", k)
Ok(t) == /\ own' = [own EXCEPT ![t] = Succeeded(@)]
         /\ got' = Nothing /\ UNCHANGED last /\ Record(t, "ok", 0)
Get(t, n) ==
  LET r == Retrieve(Variant, last[t], n)
  IN /\ got' = [th |-> t, n |-> n, r |-> r]
     /\ Record(t, "err", n) /\ UNCHANGED <<last, own>>
Next == /\ Len(hist) < MaxOps
        /\ \E t \in Threads : Ok(t) \/ (\E k \in 1..MaxMsg : Fail(t, k)) \/ (\E n \in 0..(MaxMsg + 2) : Get(t, n))
        /\ Emit => PrintT("CASE " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

Retrieved == got.th # 0 => \E m \in own[got.th] : RetrievedOk(m, got.n, got.r)
Safe == got.th # 0 => InBuffer(got.n, got.r)
(* the returned size is sufficient *)
Sufficient == got.th # 0 /\ got.r.ret > 0 => Retrieve(Variant, last[got.th], got.r.ret).ret = 0
================================================================================
