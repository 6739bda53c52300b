-------------------------------- MODULE UnwTrace --------------------------------
(* Recorded unweightings.
   kind "run": weights ev, minimum m, surviving ids, their weights in units of
     1/scale; if u >= 0 every random number was u of D.
   kind "stat": an event with |weight| a was kept k times for n different seeds;
   kind "pair": two events with |weights| a and b were kept together k times. *)
EXTENDS TraceBase, Unweight

PosOf(ids) == [k \in 1..Len(ids) |-> ids[k] + 1]
Increasing(ps) == \A k \in 1..(Len(ps) - 1) : ps[k] < ps[k + 1]

(* positions that may be kept: certainly those that are not small, never zeros *)
Possible(ev, m, ps) ==
  /\ \A k \in 1..Len(ps) : ps[k] \in 1..Len(ev)
  /\ Increasing(ps)
  /\ \A i \in 1..Len(ev) : Abs(ev[i][1]) >= m => i \in {ps[k] : k \in 1..Len(ps)}
  /\ \A k \in 1..Len(ps) : m > 0 => ev[ps[k]][1] # 0

WeightsOk(c, ps) ==
  \A k \in 1..Len(ps) :
    /\ Len(c.out[k]) = Len(c.ev[ps[k]])
    /\ \A j \in 1..Len(c.out[k]) :
         IF c.m = 0 THEN c.out[k][j] = c.ev[ps[k]][j] * c.scale
         ELSE LET den == Den(c.ev, c.m, ps, ps[k])
              IN Abs(c.out[k][j] * den - Num(c.ev, c.m, ps, ps[k], j) * c.scale) <= Abs(den)

RunOk(c) ==
  LET ps == PosOf(c.ids)
  IN /\ c.err = ""
     /\ Len(c.out) = Len(ps)
     /\ Possible(c.ev, c.m, ps)
     /\ c.u >= 0 => ps = KeptPos(c.ev, c.m, [i \in 1..Len(c.ev) |-> c.u], c.D)
     /\ WeightsOk(c, ps)

(* six standard deviations; probability a / m (at most 1) *)
Dev(k, n, p, q) == \* k of n trials with probability p / q
  LET d == Abs(k * q - n * p) IN d <= 46000 /\ d * d <= 36 * n * p * (q - p)
StatOk(c) == Dev(c.k, c.n, IF c.a >= c.m THEN c.m ELSE c.a, c.m)
PairOk(c) ==
  LET a == IF c.a >= c.m THEN c.m ELSE c.a
      b == IF c.b >= c.m THEN c.m ELSE c.b
  IN Dev(c.k, c.n, a * b, c.m * c.m)

UnwLineOk(c) ==
  CASE c.kind = "run" -> RunOk(c)
    [] c.kind = "stat" -> StatOk(c)
    [] c.kind = "pair" -> PairOk(c)
================================================================================
