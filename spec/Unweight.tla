-------------------------------- MODULE Unweight --------------------------------
(* Unweighting of a sample with minimum weight m.

   An event is a nonempty sequence of integer weights; the first is the central
   one. A draw u is one of 0..D-1 and stands for a random number between u/D and
   (u+1)/D. Final weights are rational: they are given as a numerator for each
   event and a denominator that is common to all weights of the event. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
SumUp(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

(* is an event with central weight w kept for draw u?  u*m/D < |w| *)
Keep(w, m, u, D) == Abs(w) >= m \/ (2 * u + 1) * m < 2 * D * Abs(w)

(* a draw is ambiguous if |w|/m falls into its bin *)
Clear(w, m, u, D) == Abs(w) >= m \/ (u + 1) * m <= D * Abs(w) \/ u * m >= D * Abs(w)

(* central weight of a kept event before the common factor *)
Raised(w, m) == IF Abs(w) >= m THEN w ELSE Sign(w) * m

(* sums before and after, for kept positions ps in increasing order *)
Orig(ev) == SumUp([i \in 1..Len(ev) |-> ev[i][1]])
New(ev, m, ps) == SumUp([k \in 1..Len(ps) |-> Raised(ev[ps[k]][1], m)])

(* the final weight number j of kept event i is Num/Den *)
Num(ev, m, ps, i, j) ==
  LET w == ev[i][1] IN
  ev[i][j] * (IF Abs(w) >= m THEN 1 ELSE m) * (IF New(ev, m, ps) = 0 THEN 1 ELSE Orig(ev))
Den(ev, m, ps, i) ==
  LET w == ev[i][1] IN
  (IF Abs(w) >= m THEN 1 ELSE Abs(w)) * (IF New(ev, m, ps) = 0 THEN 1 ELSE New(ev, m, ps))

(* positions kept for draws us (one for each event) *)
KeptPos(ev, m, us, D) ==
  IF m = 0 THEN [i \in 1..Len(ev) |-> i]
  ELSE SelectSeq([i \in 1..Len(ev) |-> i], LAMBDA i : Keep(ev[i][1], m, us[i], D))

================================================================================
