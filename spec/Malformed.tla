-------------------------------- MODULE Malformed --------------------------------
(* A file loses its end, or one of its lines. The reader takes one line after the
   other; nothing must get lost silently. *)
EXTENDS MalformedReader, FiniteSets, TLC

CONSTANT Format, Variant

Line(k, n) == <<k, n>>
Particles(n) == [i \in 1..n |-> Line("P", 0)]
(* a record is a sequence of numbers of particles, for each of its vertices *)
RecordLines(r) ==
  CASE Format = "hepmc" -> <<Line("E", Len(r))>> \o FlattenSeq([i \in 1..Len(r) |-> <<Line("V", r[i])>> \o Particles(r[i])])
    [] Format = "lhef" -> <<Line("O", r[1])>> \o Particles(r[1]) \o <<Line("C", 0)>>
    [] Format = "stripper" -> <<Line("S", 0)>> \o Particles(r[1]) \o <<Line("Z", 0)>>
FileLines(rs) == FlattenSeq([i \in 1..Len(rs) |-> RecordLines(rs[i])]) \o <<Line("F", 0)>>

CONSTANT MaxRecords, MaxParts
RecordSets == IF Format = "hepmc" THEN UNION {[1..n -> 0..MaxParts] : n \in 1..2} ELSE [1..1 -> 0..MaxParts]
Files == UNION {[1..n -> RecordSets] : n \in 1..MaxRecords}
Content(r) == FoldLeft(LAMBDA a, x : a + x, 0, r)

RemoveLine(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Complete(s, k) == k = 0 \/ k >= Len(s) - 1 \/ s[k + 1][1] \in Starts
Damage(s) ==
  \* cut off inside a record, between lines or inside a line
  {SubSeq(s, 1, k) : k \in {x \in 1..Len(s) : ~Complete(s, x)}}
  \cup {SubSeq(s, 1, k) \o <<Line("X", 0)>> : k \in {x \in 1..Len(s) : ~Complete(s, x)}}
  \* a line is lost, other than the start of the first record
  \cup {RemoveLine(s, i) : i \in 2..(Len(s) - 1)}

VARIABLES recs, damaged, todo, st, state
vars == <<recs, damaged, todo, st, state>>

Init == /\ recs \in Files
        /\ \/ damaged = TRUE /\ todo \in Damage(FileLines(recs))
           \/ damaged = FALSE /\ todo = FileLines(recs)
        /\ st = Reader /\ state = "reading"

Read == /\ todo # <<>> /\ st.ok
        /\ st' = ReadLine(Format, Variant, st, Head(todo))
        /\ todo' = Tail(todo) /\ UNCHANGED state
End == /\ todo = <<>> \/ ~st.ok
       /\ state' = IF st.ok /\ Stopped(Format, Variant, st) THEN "accepted" ELSE "rejected"
       /\ UNCHANGED <<todo, st>>
Next == state = "reading" /\ (Read \/ End) /\ UNCHANGED <<recs, damaged>>
Spec == Init /\ [][Next]_vars

(* an intact file is accepted *)
Undamaged == state = "rejected" => damaged
(* what is accepted is what was there. A lost STRIPPER particle leaves no trace. *)
Intact == [i \in 1..Len(recs) |-> Content(recs[i])]
Accepted == state = "accepted" =>
              st.read = Intact \/ (Format = "stripper" /\ Len(st.read) = Len(recs))
================================================================================
