----------------------------- MODULE PipelineModel -----------------------------
(* All interleavings of Pipeline for all configurations with up to N records.
   MATCH = "id": results carry the position of their record.
   MATCH = "order": results are matched by the order in which they arrive, and
   LATE = TRUE: the run carries on with whatever could be converted.  These
   are negative controls. *)
EXTENDS Pipeline, TLC
CONSTANTS N, MATCH, LATE
VARIABLES cfg, s, arrived, done

vars == <<cfg, s, arrived, done>>

Stages(n) == ({"read"} \X (1..(n + 1))) \cup ({"convert", "cluster", "id"} \X (1..n))
             \cup ({"resample", "unweight", "update"} \X {0})

Cfgs ==
  UNION {
    {[n |-> n, w |-> [i \in 1..n |-> <<10 * i>>], empty |-> e, drop |-> d, fail |-> f, radd |-> 1, uadd |-> 100] :
       e \in SUBSET (1..n), d \in {x \in SUBSET (1..n) : Cardinality(x) <= 1},
       f \in {x \in SUBSET Stages(n) : Cardinality(x) <= 2}} : n \in 0..N}

Init == cfg \in Cfgs /\ s = Start /\ arrived = <<>> /\ done = "no"

(* what the run would write if results were identified by the order of arrival *)
ByOrder(c) ==
  [i \in Pos(c) |-> LET j == arrived[i] IN
     IF j \in c.empty THEN <<>> ELSE IF j \in c.drop THEN Zeros(c, j) ELSE Unweighted(c, j)]

(* carry on with the events that could be converted *)
LateResample ==
  IF LATE /\ s.stage = "read" /\ s.pos = cfg.n /\ s.conv = Pos(cfg)
  THEN {[s EXCEPT !.stage = "resampled", !.errs = {}]} ELSE {}

Next ==
  \/ /\ done = "no"
     /\ \E t \in Steps(cfg, s) \cup LateResample :
          /\ s' = IF MATCH = "order" /\ t.stage = "updated" THEN [t EXCEPT !.out = ByOrder(cfg)] ELSE t
          /\ arrived' = IF t.clus # s.clus THEN arrived \o <<CHOOSE i \in t.clus : i \notin s.clus>> ELSE arrived
     /\ UNCHANGED <<cfg, done>>
  \/ /\ done = "no"
     /\ \E r \in Results(cfg, s) : done' = r
     /\ UNCHANGED <<cfg, s, arrived>>
  \/ done # "no" /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* nothing is treated before it was read, or twice *)
Sane == s.clus \subseteq s.conv /\ s.conv \subseteq 1..s.pos /\ s.pos <= cfg.n

(* each position gets exactly the final weights of the event that was read there *)
Right == s.stage = "updated" => s.out = Final(cfg)

(* a run that could not do everything does not succeed, and nothing was written *)
Complete == done = "ok" =>
  /\ cfg.fail \cap (s.errs \cup ({"read", "convert", "cluster", "id"} \X (1..(cfg.n + 1)))) = {}
  /\ s.stage = "updated" /\ s.clus = Pos(cfg)
FailsLoud == (\E f \in cfg.fail : f[1] \in {"read", "convert", "cluster", "id", "resample", "unweight"}) => s.stage # "updated"
Named == done \notin {"no", "ok"} => \E f \in cfg.fail : f[1] = done

Ends == <>(done # "no")
================================================================================
