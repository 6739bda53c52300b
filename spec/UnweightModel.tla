----------------------------- MODULE UnweightModel -----------------------------
(* Design check: all samples of up to N events, all outcomes of the draws.
   RULE = "ok"; "closed" keeps an event for draw <= |w|, "flat" does not raise the
   weights of kept events (negative controls). *)
EXTENDS Unweight, TLC
CONSTANTS N, M, RULE
VARIABLES ev, us, m

vars == <<ev, us, m>>
D == 6 * M \* no draw is ambiguous for m <= M with M <= 3
W == (-M - 1)..(M + 1)

Samples == UNION {[1..n -> {<<w, 2>> : w \in W}] : n \in 0..N}
Draws(n) == [1..n -> {0, 1, D \div 3, D \div 2, D - 1}]
Init == ev \in Samples /\ m \in 0..M /\ us \in Draws(Len(ev))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

KeepR(w, u) == IF RULE = "closed" THEN Abs(w) >= m \/ u * m <= D * Abs(w) ELSE Keep(w, m, u, D)
RaisedR(w) == IF RULE = "flat" THEN w ELSE Raised(w, m)

(* averaged over all draws an event keeps its weight: nothing is gained or lost
   in the mean, apart from the common factor *)
Count(w) == Cardinality({u \in 0..(D - 1) : KeepR(w, u)})
Unbiased == m > 0 => \A w \in W : Count(w) * RaisedR(w) = D * w

(* all draws of the model are clear *)
AllClear == m > 0 => \A w \in W, u \in 0..(D - 1) : Clear(w, m, u, D)

PS == KeptPos(ev, m, us, D)
(* the sum of all weights is preserved, unless that is impossible *)
SumKept ==
  LET S == New(ev, m, PS) IN
  S # 0 /\ m > 0 =>
    SumUp([k \in 1..Len(PS) |-> Raised(ev[PS[k]][1], m) * Orig(ev)]) = Orig(ev) * S

(* weights that are kept are not small, before the common factor *)
NotSmall == m > 0 => \A k \in 1..Len(PS) : Abs(Raised(ev[PS[k]][1], m)) >= m
(* the ratio of the weights of an event does not change *)
Ratio == \A k \in 1..Len(PS) : LET i == PS[k] IN
  ev[i][1] * Num(ev, m, PS, i, 2) = ev[i][2] * Num(ev, m, PS, i, 1)
Trivial == m = 0 => PS = [i \in 1..Len(ev) |-> i]
Order == \A k \in 1..(Len(PS) - 1) : PS[k] < PS[k + 1]
================================================================================
