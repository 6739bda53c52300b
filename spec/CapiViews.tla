-------------------------------- MODULE CapiViews --------------------------------
(* What the user-defined distance of a run is shown of the events evs, each of them
   [w, out]: views [id, w, out] with out a sequence of <<type, E, px, py, pz>>.
   c.fresh: everything was shown before any weight changed *)
EXTENDS Integers, Sequences
Cl == INSTANCE Clustering

(* an event that takes part *)
ViewOk(c, evs, v) ==
  /\ v.id + 1 \in DOMAIN evs
  /\ LET e == evs[v.id + 1] IN
     /\ Len(v.w) = Len(e.w)
     /\ c.fresh => v.w = e.w
     /\ v.out # <<>>
     /\ \E o \in Cl!Objects(c, e.out) : Cl!SameBag(o, v.out)

ViewsOk(c, evs) ==
  /\ \A i, j \in DOMAIN c.seen : i # j => c.seen[i].id # c.seen[j].id
  /\ \A i \in DOMAIN c.seen : ViewOk(c, evs, c.seen[i])
================================================================================
