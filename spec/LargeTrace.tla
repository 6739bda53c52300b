------------------------------ MODULE LargeTrace ------------------------------
(* Large samples: event k has the weight k after the run, either because it has
   been left alone or because it has been averaged with its only neighbour,
   with weights -k and 3 k. Lines describe a part of a sample, in order. *)
EXTENDS TraceBase

LargeLineOk(x) ==
  /\ x.rc = 0
  /\ x.written = x.size
  /\ Assert(\A i \in DOMAIN x.ids : x.w0[i] \in {x.ids[i], -x.ids[i], 3 * x.ids[i]}, "not such a sample")
  /\ Len(x.w) = Len(x.ids)
  /\ \A i \in DOMAIN x.ids : x.w[i] = x.ids[i]
===============================================================================
