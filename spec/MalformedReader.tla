---------------------------- MODULE MalformedReader ----------------------------
(* How the structure of an event file reveals that a part of it is missing.

   Lines of a file, <<kind, number>>:
     HepMC     E starts a record and announces vertices, V announces particles, P is
               a particle
     LHEF      O starts a record and announces particles, P is a particle, C closes it
     STRIPPER  S starts a record, P is a particle, Z closes it
     all       F ends the file, X is a line that is cut off
   Other lines do not matter. *)
EXTENDS Integers, Sequences, SequencesExt

Starts == {"E", "O", "S"}
Ends == {"C", "Z"}

(* state of a reader: in a record, vertices and particles that are still to come,
   particles in the records so far, end of the file seen *)
Reader == [open |-> FALSE, verts |-> 0, parts |-> 0, read |-> <<>>, ended |-> FALSE, ok |-> TRUE]

(* variant: "ok"; "uncounted" ignores what was announced, "unopened" what belongs to
   no record *)
Stopped(fmt, variant, st) ==
  /\ fmt = "hepmc" => (variant = "uncounted" \/ (st.verts = 0 /\ st.parts = 0))
  /\ fmt # "hepmc" => ~st.open

Refuse(st) == [st EXCEPT !.ok = FALSE]
Loose(variant, st) == IF variant = "unopened" THEN st ELSE Refuse(st)

ReadLine(fmt, variant, st, l) ==
  LET k == l[1] IN
  IF ~st.ok \/ st.ended THEN st
  ELSE IF k \in Starts THEN
    IF st.open /\ ~Stopped(fmt, variant, st) THEN Refuse(st)
    ELSE [st EXCEPT !.open = TRUE, !.read = Append(@, 0),
                    !.verts = IF k = "E" THEN l[2] ELSE 0, !.parts = IF k = "O" THEN l[2] ELSE 0]
  ELSE IF k = "V" THEN
    IF ~st.open THEN Loose(variant, st) ELSE [st EXCEPT !.verts = @ - 1, !.parts = @ + l[2]]
  ELSE IF k = "P" THEN
    IF ~st.open THEN Loose(variant, st)
    ELSE [st EXCEPT !.read[Len(st.read)] = @ + 1, !.parts = IF fmt = "stripper" THEN @ ELSE @ - 1]
  ELSE IF k \in Ends THEN
    IF ~st.open THEN Loose(variant, st)
    ELSE IF variant # "uncounted" /\ st.parts > 0 THEN Refuse(st)
    ELSE [st EXCEPT !.open = FALSE, !.parts = 0]
  ELSE IF k = "X" THEN IF st.open THEN Refuse(st) ELSE st
  ELSE IF k = "F" THEN [st EXCEPT !.ended = TRUE]
  ELSE st

ReadLines(fmt, variant, s) == FoldLeft(LAMBDA st, x : ReadLine(fmt, variant, st, x), Reader, s)

(* whether a file with these lines may be accepted *)
Acceptable(fmt, variant, s) == LET st == ReadLines(fmt, variant, s) IN st.ok /\ Stopped(fmt, variant, st)
================================================================================
