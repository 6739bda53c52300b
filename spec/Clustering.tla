------------------------------ MODULE Clustering ------------------------------
(* How particles become the infrared-safe objects that distances are computed
   from. A particle is <<type, E, px, py, pz>> with integer momentum, E >= |p|.

   Settings c:
     jet = <<algorithm, R, m>>     jets: radius R in units of 1e-4, minimum
                                   transverse momentum m / 10
     lep = <<>> or like jet        dressed leptons
     pho = <<>> or <<fn, fd, R, m>> isolated photons: minimum fraction fn / fd
     nu  = whether neutrinos are kept
   Angles are known to a few 1e-4 only, so that a decision may be open; the
   specification admits both outcomes then. *)
EXTENDS Kinematics, SequencesExt, FiniteSetsExt

Jet == 81
DressedLepton == 82
IsolatedPhoton == 83
Photon == 22

IsParton(t) == Abs(t) <= 5 \/ t = 21
Hadrons == {111, 211, 221, 223, 113, 213, 130, 310, 311, 321, 411, 421, 431, 511, 521, 531, 541,
            2212, 2112, 2224, 3122, 3222, 3112, 3212, 3312, 3322, 3334, 4122, 5122, 443, 553}
IsHadron(t) == Abs(t) \in Hadrons
IsNeutrino(t) == Abs(t) \in {12, 14, 16}
IsLightLepton(t) == Abs(t) \in {11, 13}
IsMuon(t) == Abs(t) = 13

Mom(p) == Tail(p)  \* <<E, px, py, pz>>
Add(p, q) == [i \in 1..4 |-> p[i] + q[i]]
Sub(p, q) == [i \in 1..4 |-> p[i] - q[i]]

(* ---- rapidity in units of 1e-4 ---- *)
One == 16384
(* binary logarithm of m / One for m in [One, 2 One), in units of 2^-13 *)
RECURSIVE LogBits(_, _, _)
LogBits(m, k, acc) ==
  IF k = 0 THEN acc
  ELSE LET q == (m * m) \div One  \* in [One, 4 One)
       IN IF q >= 2 * One THEN LogBits(q \div 2, k - 1, 2 * acc + 1) ELSE LogBits(q, k - 1, 2 * acc)
RECURSIVE Log2(_, _, _)  \* of n / d, where n, d < 2^16
Log2(n, d, e) ==
  IF n < d THEN Log2(2 * n, d, e - 1)
  ELSE IF n >= 2 * d THEN Log2(n, 2 * d, e + 1)
  ELSE 8192 * e + LogBits((n * One) \div d, 13, 0)
Rap(p) == IF p[4] = 0 THEN 0 ELSE ((Log2(p[1] + p[4], p[1] - p[4], 0) * 3466) \div 8192)
AngleError == 4
RapError(p) == IF p[4] = 0 THEN 0 ELSE 4

Within(x) == MinOf(x, 32000)
(* lower and upper bounds on the squared distance *)
DeltaR2(p, q) ==
  LET phi == DeltaPhi(p, q)
      y == Abs(Rap(p) - Rap(q))
      ey == RapError(p) + RapError(q)
      low(x, e) == MaxOf(0, Within(x) - e)
  IN [lo |-> low(phi, AngleError) * low(phi, AngleError) + low(y, ey) * low(y, ey),
      hi |-> Within(phi + AngleError) * Within(phi + AngleError) + Within(y + ey) * Within(y + ey)]

(* ---- sequential recombination (generalised kt) ---- *)
(* ps: sequence of momenta. Options: pairs <<i, j>> or beam <<i, i>>. *)
Weight(alg, p, q) ==
  CASE alg = "kt" -> MinOf(Pt2(p), Pt2(q))
    [] alg = "antikt" -> MaxOf(Pt2(p), Pt2(q))
    [] alg = "ca" -> 1
Pairs(n) == {o \in (1..n) \X (1..n) : o[1] <= o[2]}
(* x smaller than y: each [w, r] *)
DistLess(alg, wx, rx, wy, ry) ==
  IF alg = "antikt" THEN LessProd(rx, wy, ry, wx) ELSE LessProd(wx, rx, wy, ry)

Singular(ps) == \E i \in 1..Len(ps) : Pt2(ps[i]) = 0
(* candidates for the smallest distance *)
Minimal(alg, R, ps) ==
  LET dist == TLCEval([o \in Pairs(Len(ps)) |->
                 IF o[1] = o[2] THEN [w |-> Weight(alg, ps[o[1]], ps[o[1]]), lo |-> R * R, hi |-> R * R]
                 ELSE LET r == DeltaR2(ps[o[1]], ps[o[2]])
                      IN [w |-> Weight(alg, ps[o[1]], ps[o[2]]), lo |-> r.lo, hi |-> r.hi]])
  IN {o \in Pairs(Len(ps)) :
        \A u \in Pairs(Len(ps)) : u = o \/ ~DistLess(alg, dist[u].w, dist[u].hi, dist[o].w, dist[o].lo)}

(* all admissible sequences of jets, hardest or softest, before the cut *)
RECURSIVE Recombine(_, _, _)
Recombine(alg, R, ps) ==
  IF ps = <<>> THEN {<<>>}
  ELSE UNION {IF o[1] = o[2]
              THEN {<<ps[o[1]]>> \o js : js \in Recombine(alg, R, RemoveAt(ps, o[1]))}
              ELSE Recombine(alg, R, Append(RemoveAt(RemoveAt(ps, o[2]), o[1]), Add(ps[o[1]], ps[o[2]])))
              : o \in Minimal(alg, R, ps)}
AboveCut(m, p) == 100 * Pt2(p) > m * m
Clusters(def, ps) ==
  {SelectSeq(js, LAMBDA p : AboveCut(def[3], p)) : js \in Recombine(def[1], def[2], ps)}

(* ---- photon isolation ---- *)
InCone(p, q, R) ==  \* the admissible truth values
  LET r == DeltaR2(p, q)
  IN IF r.hi < R * R THEN {TRUE} ELSE IF r.lo >= R * R THEN {FALSE} ELSE BOOLEAN
RECURSIVE ConeSums(_, _, _)
ConeSums(p, R, qs) ==
  IF qs = <<>> THEN {<<0, 0, 0, 0>>}
  ELSE LET rest == ConeSums(p, R, Tail(qs))
       IN UNION {IF b THEN {Add(Head(qs), s) : s \in rest} ELSE rest : b \in InCone(p, Head(qs), R)}
(* ev without the photon in question *)
Isolated(pho, p, ev) ==
  IF pho = <<>> THEN {FALSE}
  ELSE IF 100 * Pt2(p) < pho[4] * pho[4] THEN {FALSE}
  ELSE LET others == SelectSeq(ev, LAMBDA q : ~IsNeutrino(q[1]) /\ ~IsMuon(q[1]))
           sums == ConeSums(p, pho[3], [i \in 1..Len(others) |-> Mom(others[i])])
       IN {pho[2] * pho[2] * Pt2(p) > pho[1] * pho[1] * (s[1] * s[1] - s[4] * s[4]) : s \in sums}

(* ---- the rules ---- *)
Class(c, t) ==
  CASE IsParton(t) \/ IsHadron(t) -> "jet"
    [] IsLightLepton(t) /\ c.lep # <<>> -> "lepton"
    [] IsNeutrino(t) /\ ~c.nu -> "dropped"
    [] OTHER -> "kept"

(* iso: which particles are isolated photons *)
Assigned(c, ev, iso) ==
  [i \in 1..Len(ev) |->
     IF ev[i][1] = Photon
     THEN IF iso[i] THEN "isolated" ELSE IF c.lep # <<>> THEN "lepton" ELSE "kept"
     ELSE Class(c, ev[i][1])]
IsoChoices(c, ev) ==
  LET opts == TLCEval([i \in 1..Len(ev) |->
                IF ev[i][1] = Photon THEN Isolated(c.pho, Mom(ev[i]), RemoveAt(ev, i)) ELSE {FALSE}])
  IN {f \in [1..Len(ev) -> BOOLEAN] : \A i \in 1..Len(ev) : f[i] \in opts[i]}

Pick(ev, as, a) ==
  LET idx == SelectSeq([i \in 1..Len(ev) |-> i], LAMBDA i : as[i] = a)
  IN [k \in 1..Len(idx) |-> ev[idx[k]]]
Moms(ps) == [i \in 1..Len(ps) |-> Mom(ps[i])]
Tagged(t, ps) == [i \in 1..Len(ps) |-> <<t>> \o ps[i]]

(* the admissible results, as sequences of objects in no particular order *)
Objects(c, ev) ==
  UNION {LET as == Assigned(c, ev, iso)
             fixed == Pick(ev, as, "kept") \o Tagged(IsolatedPhoton, Moms(Pick(ev, as, "isolated")))
             jets == Clusters(c.jet, Moms(Pick(ev, as, "jet")))
             leps == IF c.lep = <<>> THEN {<<>>} ELSE Clusters(c.lep, Moms(Pick(ev, as, "lepton")))
         IN {fixed \o Tagged(Jet, j) \o Tagged(DressedLepton, l) : j \in jets, l \in leps}
         : iso \in IsoChoices(c, ev)}

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
===============================================================================
