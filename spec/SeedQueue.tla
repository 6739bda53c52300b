------------------------------- MODULE SeedQueue -------------------------------
(* Seed selection and hand-out: the negative events are collected, ordered by
   the strategy and drawn one after the other by T workers. Every negative event
   is drawn exactly once, no other event ever; with one worker the draws follow
   the strategy. Chunks of the queue are handed out as a whole. *)
EXTENDS Resampling, TLC
CONSTANTS N, T, Chunk, Design   \* Design: "ok", "zero" (also takes weight 0), "abs" (sorts by |w|)
P == 1..N
Values == -2..2
VARIABLES w, strategy, queue, work, drawn
vars == <<w, strategy, queue, work, drawn>>
Perms(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
W(f) == [i \in P |-> <<f[i]>>]
Key(f, i) == IF Design = "abs" THEN (IF f[i] < 0 THEN -f[i] ELSE f[i]) ELSE f[i]
Select(f) == {i \in P : f[i] < 0 \/ (Design = "zero" /\ f[i] = 0)}
Sorted(f, st) == {s \in Perms(Select(f)) :
  \A k \in 1..Len(s) - 1 :
    CASE st = "next" -> s[k] < s[k + 1]
      [] st = "most" -> Key(f, s[k]) <= Key(f, s[k + 1])
      [] st = "least" -> Key(f, s[k]) >= Key(f, s[k + 1])}
Init ==
  /\ w \in [P -> Values]
  /\ strategy \in {"next", "most", "least"}
  /\ queue \in Sorted(w, strategy)
  /\ work = [t \in 1..T |-> <<>>]
  /\ drawn = <<>>
Steal(t) ==
  /\ work[t] = <<>> /\ queue # <<>>
  /\ LET n == IF Len(queue) < Chunk THEN Len(queue) ELSE Chunk
     IN /\ work' = [work EXCEPT ![t] = SubSeq(queue, 1, n)]
        /\ queue' = SubSeq(queue, n + 1, Len(queue))
  /\ UNCHANGED <<w, strategy, drawn>>
Draw(t) ==
  /\ work[t] # <<>>
  /\ drawn' = Append(drawn, Head(work[t]))
  /\ work' = [work EXCEPT ![t] = Tail(@)]
  /\ UNCHANGED <<w, strategy, queue>>
Done == queue = <<>> /\ \A t \in 1..T : work[t] = <<>>
Next == (\E t \in 1..T : Steal(t) \/ Draw(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Once == \A i, j \in 1..Len(drawn) : i # j => drawn[i] # drawn[j]
OnlyNegative == \A i \in 1..Len(drawn) : w[drawn[i]] < 0
Complete == Done => {drawn[k] : k \in 1..Len(drawn)} = Negative(W(w))
Ordered1 == (T = 1 /\ Done) => IsSeedOrder(W(w), strategy, drawn)
Terminates == <>Done
==============================================================================
