-------------------------------- MODULE EventFile --------------------------------
(* What an event file means, and what may differ between an input file and the
   output file that belongs to it.

   A file is a record [fmt, head, recs, foot]. A record of a file has the text
   before its weights (pre), the weights as text (w) and as numbers (v), the text
   behind them (post), the names of its weights (names, possibly empty) and its
   particles (parts), each <<status, type, E, px, py, pz>>. Texts, names and
   numbers are represented by small integers: equal if and only if equal. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* status of a particle in the final state *)
Final(fmt) == IF fmt = "stripper" THEN 0 ELSE 1

(* position of a named weight, 0 if there is none *)
Column(rec, name) ==
  LET cs == {c \in 1..Len(rec.names) : rec.names[c] = name /\ c <= Len(rec.w)}
  IN IF cs = {} THEN 0 ELSE CHOOSE c \in cs : \A d \in cs : d <= c

Columns(rec, names) == <<1>> \o [k \in 1..Len(names) |-> Column(rec, names[k])]

(* only HepMC records can have named weights *)
HasWeights(rec, names) ==
  Len(rec.w) >= 1 /\ \A k \in 1..Len(names) : Column(rec, names[k]) # 0

(* the event of a record: its weights and outgoing particles *)
EventOf(fmt, rec, names) ==
  LET cols == Columns(rec, names)
      final == SelectSeq(rec.parts, LAMBDA p : p[1] = Final(fmt))
  IN [w |-> [k \in 1..Len(cols) |-> rec.v[cols[k]]], out |-> [i \in 1..Len(final) |-> Tail(final[i])]]

CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : CountIn(s, s[i]) = CountIn(t, s[i])
SameEvent(e, f) == e.w = f.w /\ SameBag(e.out, f.out)

(* out is rec, but the participating columns may have changed, to values that
   are admissible: Ok(k, v) for weight number k *)
RewrittenBy(rec, names, Ok(_, _), out) ==
  LET cols == Columns(rec, names)
  IN /\ out.pre = rec.pre /\ out.post = rec.post /\ Len(out.w) = Len(rec.w)
     /\ \A c \in 1..Len(rec.w) :
          LET ks == {k \in 1..Len(cols) : cols[k] = c} IN
          IF ks = {} THEN out.w[c] = rec.w[c]
          ELSE Ok(CHOOSE k \in ks : \A l \in ks : l <= k, out.v[c])

Same(rec, out) == out.pre = rec.pre /\ out.post = rec.post /\ out.w = rec.w

(* new weights nw; no weights at all leave the record as it is *)
Rewritten(rec, names, nw, out) ==
  IF nw = <<>> THEN Same(rec, out) ELSE RewrittenBy(rec, names, LAMBDA k, v : v = nw[k], out)

SameFrame(f, g) == f.head = g.head /\ f.foot = g.foot

(* ws: the new weights of the records of f, in order *)
Updated(f, names, ws, g) ==
  /\ SameFrame(f, g)
  /\ Len(g.recs) = Len(f.recs)
  /\ \A i \in 1..Len(f.recs) : Rewritten(f.recs[i], names, ws[i], g.recs[i])
================================================================================
