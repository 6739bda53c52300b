----------------------------- MODULE ResampleConc -----------------------------
(* Concurrent cell resampling. Each negative event is a seed and is processed
   by one of at most T threads: check the weight of the seed, read the weights
   of the nearest neighbours one after the other while other cells change, and
   finally average the cell in one atomic step (CellLocks shows how that step is
   made atomic). Neighbours of a seed are any sequence of other events. *)
EXTENDS Resampling, TLC

CONSTANTS
  N, T,
  Values,      \* central weights before scaling
  Scale,       \* makes all means integers
  Unlimited,   \* every cell can reach every event
  Validate     \* "ok": re-check under the locks; "none": average regardless

P == 1..N

V7 == -3..3
V5 == {-3, -1, 0, 1, 2}
V4 == {-2, -1, 1, 2}
V3 == {-2, -1, 3}
V2 == {-2, 3}

Perms(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
(* orders of the other events, numbered 1..N-1 with the event itself skipped *)
Orders == IF Unlimited THEN Perms(1..N - 1) ELSE UNION {Perms(S) : S \in SUBSET (1..N - 1)}
Skip(i, o) == [k \in 1..Len(o) |-> IF o[k] >= i THEN o[k] + 1 ELSE o[k]]

VARIABLES w0, w, near, pc, acc, pos, log
vars == <<w0, w, near, pc, acc, pos, log>>

Scaled == [P -> {Scale * v : v \in Values}]
Single(f) == [i \in P |-> <<f[i]>>]
Seeds == {i \in P : w0[i] < 0}

Init ==
  /\ w0 \in Scaled
  /\ w = w0
  /\ \E f \in [{i \in P : w0[i] < 0} -> Orders] :
       near = [i \in P |-> IF w0[i] < 0 THEN Skip(i, f[i]) ELSE <<>>]
  /\ pc = [i \in P |-> IF w0[i] < 0 THEN "idle" ELSE "done"]
  /\ acc = [i \in P |-> 0]
  /\ pos = [i \in P |-> 0]
  /\ log = <<>>

Active == {i \in P : pc[i] \notin {"idle", "done"}}

Start(s) ==
  /\ pc[s] = "idle"
  /\ Cardinality(Active) < T
  /\ pc' = [pc EXCEPT ![s] = "check"]
  /\ UNCHANGED <<w0, w, near, acc, pos, log>>

(* seeds with non-negative weight are ignored *)
Check(s) ==
  /\ pc[s] = "check"
  /\ pc' = [pc EXCEPT ![s] = IF w[s] >= 0 THEN "done" ELSE "seed"]
  /\ UNCHANGED <<w0, w, near, acc, pos, log>>

ReadSeed(s) ==
  /\ pc[s] = "seed"
  /\ acc' = [acc EXCEPT ![s] = w[s]]
  /\ pos' = [pos EXCEPT ![s] = 0]
  /\ pc' = [pc EXCEPT ![s] = "grow"]
  /\ UNCHANGED <<w0, w, near, log>>

Grow(s) ==
  /\ pc[s] = "grow"
  /\ IF pos[s] < Len(near[s])
     THEN /\ pos' = [pos EXCEPT ![s] = @ + 1]
          /\ acc' = [acc EXCEPT ![s] = @ + w[near[s][pos[s] + 1]]]
          /\ pc' = [pc EXCEPT ![s] = IF acc'[s] >= 0 THEN "commit" ELSE "grow"]
     ELSE pc' = [pc EXCEPT ![s] = "commit"] /\ UNCHANGED <<pos, acc>>
  /\ UNCHANGED <<w0, w, near, log>>

Members(s) == {s} \cup {near[s][k] : k \in 1..pos[s]}
CellSum(s) == WeightOf(Single(w), Members(s), 1)

Rejected(s) ==
  /\ Validate = "ok"
  /\ w[s] >= 0 \/ (acc[s] >= 0 /\ CellSum(s) < 0)

Commit(s) ==
  /\ pc[s] = "commit"
  /\ IF Rejected(s)
     THEN pc' = [pc EXCEPT ![s] = "check"] /\ UNCHANGED <<w, log>>
     ELSE /\ LET a == Averaged(Single(w), Members(s)) IN w' = [i \in P |-> a[i][1]]
          /\ log' = Append(log, [seed |-> s, members |-> Members(s), before |-> w])
          /\ pc' = [pc EXCEPT ![s] = "done"]
  /\ UNCHANGED <<w0, near, acc, pos>>

Step(s) == Start(s) \/ Check(s) \/ ReadSeed(s) \/ Grow(s) \/ Commit(s)
Done == \A s \in P : pc[s] = "done"
Next == (\E s \in P : Step(s)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A s \in P : WF_vars(Step(s))

-------------------------------------------------------------------------------
SumOf(f) == WeightOf(Single(f), P, 1)

Exact == \A k \in 1..Len(log) : Divides(Single(log[k].before), log[k].members)
Conserved == SumOf(w) = SumOf(w0)
AtMostOnce == \A j, k \in 1..Len(log) : j # k => log[j].seed # log[k].seed

(* C02 *)
NoNegativeLeft == (Done /\ Unlimited /\ SumOf(w0) >= 0) => \A i \in P : w[i] >= 0

(* Stronger, inductive form: whatever was averaged has a non-negative mean
   unless all reachable events were included *)
CellsNonNegative ==
  \A k \in 1..Len(log) :
    \/ WeightOf(Single(log[k].before), log[k].members, 1) >= 0
    \/ log[k].members = {log[k].seed} \cup {near[log[k].seed][j] : j \in 1..Len(near[log[k].seed])}

(* C03: with T = 1, each cell is minimal at the moment it is averaged *)
OneAtATimeMinimal ==
  \A k \in 1..Len(log) :
    LET c == log[k]
        D(a, b) == IF \E j \in 1..Len(near[a]) : near[a][j] = b
                   THEN CHOOSE j \in 1..Len(near[a]) : near[a][j] = b ELSE N + 1
    IN IsCell(Single(c.before), D, c.seed, N, c.members)

OneThreadMinimal == T = 1 => OneAtATimeMinimal

Terminates == <>Done
==============================================================================
