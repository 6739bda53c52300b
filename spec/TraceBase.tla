------------------------------ MODULE TraceBase ------------------------------
(* Replays recorded lines against a specification: LineOk decides whether the
   specification admits the behaviour recorded in one line. The replay is
   deterministic and total; it ends by printing the rejected lines. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT LineOk(_)
VARIABLES l, bad

Trace == ndJsonDeserialize(IOEnv.TRACE)

TInit == l = 1 /\ bad = <<>>

TNext ==
  \/ /\ l <= Len(Trace)
     /\ l' = l + 1
     /\ bad' = IF LineOk(Trace[l]) THEN bad ELSE Append(bad, l)
     /\ l' > Len(Trace) =>
          PrintT("VERDICT " \o ToString(Len(Trace)) \o " " \o ToString(bad'))
  \/ l > Len(Trace) /\ UNCHANGED <<l, bad>>

TSpec == TInit /\ [][TNext]_<<l, bad>>
==============================================================================
