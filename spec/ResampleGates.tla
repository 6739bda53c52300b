----------------------------- MODULE ResampleGates -----------------------------
(* The schedules to be replayed: ResampleConc at the granularity at which the
   harness can stop the threads of the real resampler (a seed is drawn; the
   neighbour search starts; the next neighbour is handed out), for the design
   without re-check. Every complete schedule is printed; those that leave a
   negative weight in this design are the interesting ones. *)
EXTENDS Resampling, TLC, Json, IOUtils

CONSTANTS N, Samples, Scale, OnlyBad, Share
P == 1..N
(* weights: every order of these *)
W3 == {<<-3, -1, 4>>, <<-1, -1, 2>>, <<-3, 1, 2>>}
W4 == {<<-1, -1, -2, 4>>, <<-3, -1, -1, 6>>, <<-2, -1, -1, 5>>, <<-1, -1, -3, 5>>}

VARIABLES w0, w, dist, near, pc, acc, pos, sched
vars == <<w0, w, dist, near, pc, acc, pos, sched>>

Pairs == {<<i, j>> \in P \X P : i < j}
Injective(f) == \A x, y \in DOMAIN f : x # y => f[x] # f[y]
D(i, j) == IF i = j THEN 0 ELSE IF i < j THEN dist[<<i, j>>] ELSE dist[<<j, i>>]

Nearest(s) == CHOOSE o \in [1..N - 1 -> P \ {s}] :
  \A k \in 1..N - 2 : D(s, o[k]) < D(s, o[k + 1])

Single(f) == [i \in P |-> <<f[i]>>]
SumOf(f) == WeightOf(Single(f), P, 1)

(* a part of all distances that depends on the seed of the run *)
Seed == atoi(IOEnv.VERIF_SEED)
Chosen(f) ==
  LET h(p) == f[p] * (f[p] + 3 * p[1] + 7 * p[2])
      S(x) == h(x)
  IN (SumOver(S, Pairs) + Seed) % Share = 0

Init ==
  /\ \E v \in Samples : w0 = [i \in P |-> Scale * v[i]]
  /\ w = w0
  /\ dist \in {f \in [Pairs -> 1..Cardinality(Pairs)] : Injective(f) /\ Chosen(f)}
  /\ near = [i \in P |-> Nearest(i)]
  /\ pc = [i \in P |-> IF w0[i] < 0 THEN "seed" ELSE "done"]
  /\ acc = [i \in P |-> 0]
  /\ pos = [i \in P |-> 0]
  /\ sched = <<>>

Members(s, p) == {s} \cup {near[s][k] : k \in 1..p}

Step(s) ==
  /\ pc[s] # "done"
  \* the two gates before the first neighbour are passed together
  /\ sched' = IF pc[s] = "seed" /\ w[s] < 0 THEN sched \o <<s, s>> ELSE Append(sched, s)
  /\ CASE pc[s] = "seed" ->
            /\ pc' = [pc EXCEPT ![s] = IF w[s] >= 0 THEN "done" ELSE "next"]
            /\ acc' = [acc EXCEPT ![s] = w[s]]
            /\ UNCHANGED <<w, pos>>
       [] pc[s] = "next" ->
            LET p == pos[s] + 1
                a == acc[s] + w[near[s][p]]
            IN /\ pos' = [pos EXCEPT ![s] = p]
               /\ acc' = [acc EXCEPT ![s] = a]
               /\ IF a >= 0 \/ p = N - 1
                  THEN /\ pc' = [pc EXCEPT ![s] = "done"]
                       /\ LET v == Averaged(Single(w), Members(s, p)) IN w' = [i \in P |-> v[i][1]]
                  ELSE pc' = [pc EXCEPT ![s] = "next"] /\ UNCHANGED w
  /\ UNCHANGED <<w0, dist, near>>

Done == \A s \in P : pc[s] = "done"
Bad == \E i \in P : w[i] < 0
Next == (\E s \in P : Step(s)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

(* an "invariant" that prints every complete schedule *)
PrintCase ==
  (Done /\ (Bad \/ ~OnlyBad)) =>
    PrintT("CASE " \o ToJson([w |-> w0, bad |-> Bad, sched |-> sched,
                              d |-> [i \in P |-> [j \in P |-> D(i, j)]]]))
==============================================================================
