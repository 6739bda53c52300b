----------------------------- MODULE MalformedTrace -----------------------------
(* Runs of the tools on damaged files.
   kind "entry": one entry is damaged, c is the case
   kind "lines": the file lost some of its lines or its end, ls is what remains;
     intact: nothing is lost
   kind "stream": the file is not valid text, or a compressed stream is cut off
   rc: exit status, -1 without end, 128 or more for a signal; msg: error message *)
EXTENDS TraceBase, MalformedEntries
R == INSTANCE MalformedReader

Reported(x) == x.rc = 1 /\ x.msg # ""
Decent(x) == x.rc = 0 \/ Reported(x)

MalformedLineOk(x) ==
  /\ Decent(x)
  /\ CASE x.kind = "entry" -> /\ MustReject(x.c) => Reported(x)
                              /\ MustAccept(x.c) => x.rc = 0
       [] x.kind = "lines" -> /\ ~R!Acceptable(x.fmt, "ok", x.ls) => Reported(x)
                              /\ x.intact => R!Acceptable(x.fmt, "ok", x.ls) /\ x.rc = 0
       [] x.kind = "stream" -> Reported(x)
================================================================================
