---------------------------- MODULE ClusteringModel ----------------------------
(* Consequences of the rules, over all small events of a family of particles:
   no momentum is lost or created, objects are what they should be, and a
   collinear splitting of a parton or the emission of a soft one changes
   nothing. *)
EXTENDS Clustering, Json

CONSTANTS MaxParticles, Variant, Types

Directions == <<<<5, 5, 0, 0>>, <<10, 8, 6, 0>>, <<5, -4, 3, 0>>, <<13, 3, 4, 12>>>>
Particles == {<<t>> \o Directions[k] : t \in Types, k \in 1..Len(Directions)}
Rank(p) == p[1] * 1000 + p[2] + p[3] * 20  \* order, to save symmetric events
Events == UNION {{e \in [1..k -> Particles] : \A i \in 1..(k - 1) : Rank(e[i]) <= Rank(e[i + 1])} : k \in 0..MaxParticles}
Settings == {[jet |-> <<alg, r, 0>>, lep |-> lep, pho |-> pho, nu |-> nu] :
               alg \in {"kt", "antikt", "ca"}, r \in {4000, 12000},
               lep \in {<<>>, <<"ca", 1000, 0>>}, pho \in {<<>>, <<1, 2, 9000, 43>>}, nu \in BOOLEAN}

VARIABLES c, ev
vars == <<c, ev>>
Init == c \in Settings /\ ev \in Events
Spec == Init /\ [][UNCHANGED vars]_vars

Total(s) == FoldLeft(LAMBDA a, p : Add(a, Mom(p)), <<0, 0, 0, 0>>, s)
Visible == SelectSeq(ev, LAMBDA p : c.nu \/ ~IsNeutrino(p[1]))

(* a broken design: photons that are not isolated disappear *)
Result ==
  IF Variant = "lost"
  THEN {SelectSeq(o, LAMBDA p : p[1] # Photon) : o \in Objects(c, ev)}
  ELSE Objects(c, ev)

Conserved == \A o \in Result : Total(o) = Total(Visible)
Typed ==
  \A o \in Result : \A i \in 1..Len(o) :
    LET t == o[i][1]
    IN /\ ~IsParton(t) /\ ~IsHadron(t)
       /\ c.lep # <<>> => ~IsLightLepton(t) /\ t # Photon
       /\ c.lep = <<>> => t # DressedLepton
       /\ c.pho = <<>> => t # IsolatedPhoton
NoExtra == \A o \in Result : Len(o) <= Len(Visible)
Kept == \A o \in Result : \A i \in 1..Len(ev) :
          Class(c, ev[i][1]) = "kept" /\ ev[i][1] # Photon => Count(o, ev[i]) = Count(ev, ev[i])
(* the photon settings without the lepton settings change nothing else *)
SomeResult == Objects(c, ev) # {}

(* splitting the last parton of an event in two halves; jets only *)
Doubled == [i \in 1..Len(ev) |-> <<ev[i][1]>> \o [k \in 1..4 |-> 2 * ev[i][k + 1]]]
Split(e) == Append(ReplaceAt(e, Len(e), ev[Len(ev)]), ev[Len(ev)])
CollinearSafe ==
  (ev # <<>> /\ IsParton(ev[Len(ev)][1])
   /\ \A i \in 1..Len(ev) : ev[i][1] # Photon) =>
     \A o \in Objects(c, Split(Doubled)) :
       LET bag(x) == SameBag(x, o) IN \E x \in Objects(c, Doubled) : bag(x)

AllTypes == {21, 22, 11, 14, 6}
Partons == {21}
===============================================================================
