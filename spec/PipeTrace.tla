------------------------------- MODULE PipeTrace -------------------------------
(* Recorded runs of Cres::run with components that log what they are asked to
   do. The log has to be a behaviour of Pipeline, and the result has to be one
   that the final state admits. Events without particles carry no identity when
   they are clustered (position 0). *)
EXTENDS TraceBase, Pipeline, SequencesExt

Cfg(x) == [n |-> x.n, w |-> x.w, empty |-> ToSet(x.empty), drop |-> ToSet(x.drop),
           fail |-> {<<f[1], f[2]>> : f \in ToSet(x.fail)}, radd |-> x.radd, uadd |-> x.uadd]

(* what a stage for the complete sample is shown: <<id, identity, weights>> *)
Shown(x, set, w(_)) ==
  /\ Len(x) = Cardinality(set)
  /\ ToSet(x) = {<<i, i, w(i)>> : i \in set}

Act(c, s, e) ==
  CASE e.a = "read" -> IF e.i = s.pos + 1 THEN Read(c, s) ELSE {}
    [] e.a = "readfail" -> ReadFails(c, s)
    [] e.a = "convert" -> IF e.i \in Pos(c) THEN Convert(c, s, e.i) ELSE {}
    [] e.a = "cluster" -> IF e.i = 0 THEN UNION {Cluster(c, s, i) : i \in c.empty}
                          ELSE IF e.i \in Full(c) THEN Cluster(c, s, e.i) ELSE {}
    [] e.a = "resample" -> IF Shown(e.ev, Full(c), LAMBDA i : c.w[i]) THEN Resample(c, s) ELSE {}
    [] e.a = "unweight" -> IF Shown(e.ev, Full(c), LAMBDA i : Resampled(c, i)) THEN Unweight(c, s) ELSE {}
    [] e.a = "update" -> {t \in Update(c, s) : t.out = e.w}
    [] OTHER -> {}

PipeLineOk(x) ==
  LET c == Cfg(x)
      S == FoldLeft(LAMBDA acc, e : UNION {Act(c, s, e) : s \in acc}, {Start}, x.log)
  IN \E s \in S : x.res \in Results(c, s)
================================================================================
