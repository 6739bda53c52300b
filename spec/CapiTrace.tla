-------------------------------- MODULE CapiTrace --------------------------------
(* Recorded histories of calls to the C library: x.calls[i] has
     th, op: the thread, and "run", "log", "err", or "print"
     run, log: ret, fail: whether it has to fail, msg: the message for that failure
     err: n, ret, written: up to the first zero in the buffer (<<>> without changes),
          clean: nothing was written outside of the buffer
     print: msg: what appeared on the standard error output *)
EXTENDS TraceBase, Capi, SequencesExt, TLC

(* own: thread -> possible last errors; {} if something is wrong *)
Step(own, x) ==
  LET o == own[x.th] IN
  CASE x.op \in {"run", "log"} ->
         IF (x.ret # 0) # x.fail THEN {} ELSE IF x.fail THEN Failed(x.msg) ELSE Succeeded(o)
    [] x.op = "err" -> IF ~x.clean THEN {} ELSE {m \in o : RetrievedOk(m, x.n, [ret |-> x.ret, written |-> x.written])}
    [] x.op = "print" -> {m \in o : IF m = NoError THEN x.msg = <<>> ELSE x.msg = m \o <<10>>}
Ends(calls) ==
  FoldLeft(LAMBDA own, x : IF \E t \in DOMAIN own : own[t] = {} THEN own ELSE [own EXCEPT ![x.th] = Step(own, x)],
           [t \in 0..7 |-> {NoError}], calls)
CapiLineOk(x) ==
  /\ \A i \in DOMAIN x.calls : (x.calls[i].op \in {"run", "log"} /\ x.calls[i].fail) => x.calls[i].msg # NoError
  /\ LET own == Ends(x.calls) IN \A t \in DOMAIN own : own[t] # {}
================================================================================
