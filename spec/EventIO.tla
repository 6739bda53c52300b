--------------------------------- MODULE EventIO ---------------------------------
(* The combined event I/O object over several files is a cursor over all events.

   Abstract state: pos, the number of events behind the cursor; log, the weights
   that single updates have written since the last rewind, or Dirty if anything
   else has moved the cursor since.

   Results: an event number, "none", "true", "false" or a count. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

Start == [pos |-> 0, log |-> <<>>, clean |-> TRUE]

(* an operation is <<"next">>, <<"rewind">>, <<"hint">>, <<"upd", w>>,
   <<"all", ws>> or <<"fin">>; a complete update leaves the cursor at the end. After an update
   with too few weights the position is not specified until the next rewind. *)
Step(n, st, op) ==
  CASE op[1] = "next" ->
         IF st.pos < n THEN [st |-> [pos |-> st.pos + 1, log |-> <<>>, clean |-> FALSE], res |-> <<"ev", st.pos + 1>>]
         ELSE [st |-> [st EXCEPT !.clean = FALSE], res |-> <<"none">>]
    [] op[1] = "rewind" -> [st |-> Start, res |-> <<"ok">>]
    [] op[1] = "fin" -> [st |-> st, res |-> <<"ok">>]
    [] op[1] = "hint" -> [st |-> st, res |-> <<"hint", n - st.pos>>]
    [] op[1] = "upd" ->
         IF st.pos < n
         THEN [st |-> [pos |-> st.pos + 1, log |-> Append(st.log, op[2]), clean |-> st.clean],
               res |-> <<"true">>]
         ELSE [st |-> st, res |-> <<"false">>]
    [] op[1] = "all" ->
         [st |-> [pos |-> n, log |-> SubSeq(op[2], 1, IF Len(op[2]) < n THEN Len(op[2]) ELSE n),
                 clean |-> Len(op[2]) >= n],
          res |-> <<"n", IF Len(op[2]) < n THEN Len(op[2]) ELSE n>>]

(* The outputs are complete once an update has gone through all events from the
   start: it has said so, by reporting that there is no
   further event. An object for a single file has to be told. *)
Complete(n, st, op, res, single) ==
  \/ op[1] = "all" /\ Len(op[2]) >= n
  \/ /\ IF single THEN op[1] = "fin" ELSE op[1] = "upd" /\ res = <<"false">>
     /\ st.clean /\ Len(st.log) = n
================================================================================
