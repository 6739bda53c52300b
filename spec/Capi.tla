---------------------------------- MODULE Capi ----------------------------------
(* The error interface of the C library. Every thread has a last error, NoError or
   a message, which is a sequence of bytes. Retrieving it into a buffer of n bytes
   writes some bytes at the start of the buffer and returns a number. *)
EXTENDS Integers, Sequences, FiniteSets

NoError == <<>>

(* ---- an implementation. Variants: "overflow" and "nonull" copy too much, "boundary"
   forgets the final zero when it compares sizes, "size" when it returns them *)
Retrieve(variant, msg, n) ==
  IF msg = NoError THEN [ret |-> 0, written |-> <<>>]
  ELSE IF n = 0 /\ variant # "overflow" THEN [ret |-> Len(msg) + 1, written |-> <<>>]
  ELSE LET room == IF variant = "overflow" THEN n ELSE n - 1
           k == IF Len(msg) <= room THEN Len(msg) ELSE room
           fits == IF variant = "boundary" THEN Len(msg) <= n ELSE Len(msg) < n
       IN [ret |-> IF fits THEN 0 ELSE IF variant = "size" THEN Len(msg) ELSE Len(msg) + 1,
           written |-> SubSeq(msg, 1, k) \o IF variant = "nonull" /\ ~fits THEN <<>> ELSE <<0>>]

(* ---- what users rely on *)
(* nothing is written outside of the buffer *)
InBuffer(n, r) == Len(r.written) <= n
(* a string was written, if there is something to write and room for it *)
Terminated(msg, n, r) == msg # NoError /\ n > 0 => r.written # <<>> /\ r.written[Len(r.written)] = 0
Text(r) == IF r.written = <<>> THEN <<>> ELSE SubSeq(r.written, 1, Len(r.written) - 1)
(* it is the message or, if that does not fit, its start. Whole characters may be left out. *)
Truthful(msg, n, r) ==
  /\ Len(Text(r)) <= Len(msg) /\ Text(r) = SubSeq(msg, 1, Len(Text(r)))
  /\ Len(Text(r)) < Len(msg) => Len(Text(r)) + 4 >= n
(* success is reported if, and only if, everything is there; otherwise the size needed for it *)
Reported(msg, n, r) == r.ret = (IF msg = NoError \/ (Text(r) = msg /\ n > 0) THEN 0 ELSE Len(msg) + 1)

RetrievedOk(msg, n, r) ==
  InBuffer(n, r) /\ Terminated(msg, n, r) /\ Truthful(msg, n, r) /\ Reported(msg, n, r)

(* ---- histories of a thread. After a successful call the last error may be kept or
   forgotten: a set of possible last errors. *)
Failed(msg) == {msg}
Succeeded(last) == last \cup {NoError}
================================================================================
