------------------------------ MODULE Resampling ------------------------------
(* What cell resampling has to do. Events are 1..n; w[i] is the sequence of the
   weights of event i, w[i][1] being the central one. *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumOver(_, _)
SumOver(f(_), S) ==
  IF S = {} THEN 0
  ELSE LET x == CHOOSE y \in S : TRUE IN f(x) + SumOver(f, S \ {x})

Central(w, i) == w[i][1]
Total(w, k) == LET f(i) == w[i][k] IN SumOver(f, 1..Len(w))
WeightOf(w, S, k) == LET f(i) == w[i][k] IN SumOver(f, S)

Negative(w) == {i \in 1..Len(w) : Central(w, i) < 0}

(* seeds: every negative event once, in the order of the strategy; the order
   among equal weights is free, except for "next" *)
IsSeedOrder(w, strategy, s) ==
  /\ Len(s) = Cardinality(Negative(w))
  /\ {s[k] : k \in 1..Len(s)} = Negative(w)
  /\ \A k \in 1..Len(s) - 1 :
       CASE strategy = "next" -> s[k] < s[k + 1]
         [] strategy = "most" -> Central(w, s[k]) <= Central(w, s[k + 1])
         [] strategy = "least" -> Central(w, s[k]) >= Central(w, s[k + 1])

(* the members in the order in which they may have been added: by distance, and
   the order among equal distances that keeps partial sums smallest *)
RECURSIVE Ordered(_, _, _, _)
Ordered(w, D(_, _), seed, S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S :
                  \/ D(seed, x) < D(seed, y)
                  \/ D(seed, x) = D(seed, y) /\ Central(w, x) < Central(w, y)
                  \/ D(seed, x) = D(seed, y) /\ Central(w, x) = Central(w, y) /\ x <= y
       IN <<m>> \o Ordered(w, D, seed, S \ {m})

RECURSIVE PrefixesNegative(_, _, _)
PrefixesNegative(w, acc, seq) ==
  \/ seq = <<>>
  \/ acc < 0 /\ PrefixesNegative(w, acc + Central(w, Head(seq)), Tail(seq))

(* members is the cell that belongs to the seed *)
IsCell(w, D(_, _), seed, limit, members) ==
  LET others == members \ {seed}
      outside == (1..Len(w)) \ members
      total == WeightOf(w, members, 1)
  IN /\ seed \in members
     /\ \A m \in others : D(seed, m) <= limit
     /\ \A m \in others, x \in outside : D(seed, m) <= D(seed, x)
     /\ PrefixesNegative(w, Central(w, seed), Ordered(w, D, seed, others))
     /\ total < 0 => \A x \in outside : D(seed, x) > limit

Radius(D(_, _), seed, members) ==
  LET ds == {D(seed, m) : m \in members \ {seed}} \cup {0}
  IN CHOOSE r \in ds : \A x \in ds : x <= r

(* every weight of every member becomes the mean over the cell; the numbers are
   chosen such that means are integers *)
Divides(w, members) ==
  \A k \in 1..Len(w[1]) : WeightOf(w, members, k) % Cardinality(members) = 0
Averaged(w, members) ==
  [i \in 1..Len(w) |->
     IF i \in members
     THEN [k \in 1..Len(w[i]) |-> WeightOf(w, members, k) \div Cardinality(members)]
     ELSE w[i]]
==============================================================================
