------------------------------ MODULE OutputPlans ------------------------------
(* Plans of faults: <<position, kind>> where positions are fractions of all calls of
   an undisturbed run, in sixteenths *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Kinds == {"fail", "full", "closed", "zero", "short", "intr"}
Mild == {"short", "intr"}
(* two faults, the first one of which is survived *)
Pairs == {<<<<i, a>>, <<j, b>>>> : i \in 0..15, a \in Mild, j \in 0..15, b \in Kinds}
Plans == {p \in Pairs : p[1][1] <= p[2][1]}

VARIABLE dummy
GSpec == dummy = 0 /\ [][UNCHANGED dummy]_dummy
ASSUME \A k \in Kinds : PrintT("KIND " \o k)
ASSUME \A p \in Plans : PrintT("PLAN " \o ToJson(p))
================================================================================
