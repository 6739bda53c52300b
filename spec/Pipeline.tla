-------------------------------- MODULE Pipeline --------------------------------
(* The order of work of one run (Cres::run).

   Records 1..n are read sequentially. Each is converted and then clustered by
   some worker, in any order relative to all others. When everything has been
   read and clustered, the events that have identified particles are resampled,
   unweighted (which may discard events; both stages may reorder the events),
   and the final weights are written back under the positions of the records.

   A configuration c has
     c.w[i]      weights of record i
     c.empty     positions of the events without identified particles
     c.fail      failures: a set of <<stage, position>> (position 0 for stages
                 that treat the complete sample), where stage is one of "read",
                 "convert", "cluster", "id", "resample", "unweight", "update"
     c.drop      positions of the events that are discarded by the unweighting
     c.radd, c.uadd   what resampling and unweighting do to the weights: they
                 add radd and uadd times the position
     c.n         number of records

   The state s has
     pos         records read so far
     conv, clus  positions converted and clustered so far
     errs        failures raised so far
     stage       "read", "resampled", "unweighted", "updated"
     out         the weights handed to the output *)
EXTENDS Integers, Sequences, FiniteSets

Pos(c) == 1..c.n
Fails(c, stage, i) == <<stage, i>> \in c.fail
Start == [pos |-> 0, conv |-> {}, clus |-> {}, errs |-> {}, stage |-> "read", out |-> <<>>]

Full(c) == Pos(c) \ c.empty
Kept(c) == Full(c) \ c.drop

Resampled(c, i) == [k \in 1..Len(c.w[i]) |-> c.w[i][k] + c.radd * i]
Unweighted(c, i) == [k \in 1..Len(c.w[i]) |-> Resampled(c, i)[k] + c.uadd * i]
Zeros(c, i) == [k \in 1..Len(c.w[i]) |-> 0]

(* weights for each record: untouched records have no weights *)
Final(c) ==
  [i \in Pos(c) |-> IF i \in c.empty THEN <<>>
                    ELSE IF i \in c.drop THEN Zeros(c, i) ELSE Unweighted(c, i)]

--------------------------------------------------------------------------------
(* each action is a function from the state to the set of possible successors *)

Read(c, s) ==
  IF s.stage = "read" /\ s.pos < c.n /\ ~Fails(c, "read", s.pos + 1) /\ ~\E i \in Pos(c) : <<"read", i>> \in s.errs
  THEN {[s EXCEPT !.pos = @ + 1]} ELSE {}

ReadFails(c, s) ==
  IF s.stage = "read" /\ <<"read", s.pos + 1>> \in c.fail \ s.errs
  THEN {[s EXCEPT !.errs = @ \cup {<<"read", s.pos + 1>>}]} ELSE {}

Convert(c, s, i) ==
  IF s.stage = "read" /\ i \in 1..s.pos \ s.conv
  THEN {[s EXCEPT !.conv = @ \cup {i},
                  !.errs = @ \cup ({<<"convert", i>>} \cap c.fail)]} ELSE {}

(* an event whose conversion failed is not clustered; the id is checked afterwards *)
Cluster(c, s, i) ==
  IF s.stage = "read" /\ i \in s.conv \ s.clus /\ ~Fails(c, "convert", i)
  THEN {[s EXCEPT !.clus = @ \cup {i},
                  !.errs = @ \cup (IF Fails(c, "cluster", i) THEN {<<"cluster", i>>}
                                   ELSE {<<"id", i>>} \cap c.fail)]} ELSE {}

Resample(c, s) ==
  IF s.stage = "read" /\ s.pos = c.n /\ s.clus = Pos(c) /\ s.errs = {} /\ ~Fails(c, "read", c.n + 1)
  THEN {[s EXCEPT !.stage = "resampled", !.errs = {<<"resample", 0>>} \cap c.fail]} ELSE {}

Unweight(c, s) ==
  IF s.stage = "resampled" /\ s.errs = {}
  THEN {[s EXCEPT !.stage = "unweighted", !.errs = {<<"unweight", 0>>} \cap c.fail]} ELSE {}

Update(c, s) ==
  IF s.stage = "unweighted" /\ s.errs = {}
  THEN {[s EXCEPT !.stage = "updated", !.out = Final(c), !.errs = {<<"update", 0>>} \cap c.fail]} ELSE {}

(* may the run end in state s, and with what result? *)
Results(c, s) ==
  IF s.errs # {} THEN {e[1] : e \in s.errs}
  ELSE IF s.stage = "updated" THEN {"ok"} ELSE {}

Steps(c, s) ==
  Read(c, s) \cup ReadFails(c, s) \cup UNION {Convert(c, s, i) \cup Cluster(c, s, i) : i \in Pos(c)}
  \cup Resample(c, s) \cup Unweight(c, s) \cup Update(c, s)
================================================================================
