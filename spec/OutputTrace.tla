------------------------------ MODULE OutputTrace ------------------------------
(* Recorded runs with faults, see Output.
   ops    the calls on output and input files, <<name, file, units wanted, result>>,
          the result is negative for an error
   files  the output files that there have to be: [exists, size, full, same], where full is
          the size of the complete file and same says that its content is right
   rc     exit status, -1 without end, 128 or more for a signal; msg: error message *)
EXTENDS TraceBase, SequencesExt

Start == [open |-> {}, ok |-> TRUE]
(* the calls are those of Output: files are created before something is written to them;
   a call accepts no more than what it is offered *)
Call(st, o) ==
  LET op == o[1]  f == o[2]  want == o[3]  got == o[4] IN
  CASE op \in {"create", "open"} ->
         IF got < 0 THEN st ELSE [st EXCEPT !.open = @ \cup {f}]
    [] op \in {"write", "read"} ->
         IF got < 0 THEN st ELSE [st EXCEPT !.ok = @ /\ f \in st.open /\ got <= want]
    [] OTHER -> st
Calls(ops) == FoldLeft(Call, Start, ops)

Delivered(x) == \A i \in DOMAIN x.files : x.files[i].exists /\ x.files[i].size = x.files[i].full /\ x.files[i].same
Reported(x) == x.rc = 1 /\ x.msg # ""

OutputLineOk(x) ==
  LET st == Calls(x.ops) IN
  /\ st.ok
  \* a program may give up after an interruption, but it has to say so
  /\ x.rc = 0 \/ Reported(x)
  \* Success
  /\ x.rc = 0 => Delivered(x)
================================================================================
