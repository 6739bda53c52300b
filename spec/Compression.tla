------------------------------- MODULE Compression -------------------------------
(* A compressed output stream and the settings that select it. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* ------------------------------------------------------------------ settings *)
Algos == {"bzip2", "gzip", "lz4", "zstd"}
AlgoOf(name) ==
  CASE name \in {"bzip2", "bz2"} -> "bzip2" [] name \in {"gzip", "gz"} -> "gzip"
    [] name = "lz4" -> "lz4" [] name \in {"zstd", "zstandard"} -> "zstd" [] OTHER -> "none"
MaxLevel(a) == CASE a = "gzip" -> 9 [] a = "lz4" -> 16 [] a = "zstd" -> 19 [] OTHER -> -1
(* formats whose content is protected by a checksum, unless one opts out *)
Checksummed == {"bzip2", "gzip", "lz4"}
Default(a) == CASE a = "gzip" -> 6 [] OTHER -> 0
Refused == [ok |-> FALSE, algo |-> "none", lvl |-> 0]
(* level: -1 if none is given *)
Select(name, level) ==
  LET a == AlgoOf(name) IN
  IF a = "none" \/ level > MaxLevel(a) THEN Refused
  ELSE [ok |-> TRUE, algo |-> a, lvl |-> IF level < 0 THEN Default(a) ELSE level]

(* -------------------------------------------------------------------- stream *)
(* ops of a writer; each write has a size (0 writes nothing)
   out is what reaches the file: the numbers of the written pieces, and END marks *)
End == 0
Open == [phase |-> "open", out |-> <<>>]
(* variant: "ok"; "drop" does not complete a dropped stream; "again" completes a finished
   stream when it is dropped; "late" accepts data after the end *)
Do(variant, st, k, op) ==
  CASE op[1] = "write" ->
         IF st.phase = "open" \/ variant = "late"
         THEN [st EXCEPT !.out = IF op[2] > 0 THEN Append(@, k) ELSE @] ELSE st
    [] op[1] = "finish" /\ st.phase = "open" -> [phase |-> "finished", out |-> Append(st.out, End)]
    [] op[1] = "drop" -> IF (st.phase = "open" /\ variant # "drop") \/ (st.phase = "finished" /\ variant = "again")
                         THEN [phase |-> "dropped", out |-> Append(st.out, End)] ELSE [st EXCEPT !.phase = "dropped"]
    [] OTHER -> st
DoAll(variant, ops) == FoldLeftDomain(LAMBDA st, k : Do(variant, st, k, ops[k]), Open, ops)
(* whether an operation is successful. Writing nothing after the end, or completing the
   stream again, may be either. *)
Success(ops, k) ==
  LET st == DoAll("ok", SubSeq(ops, 1, k - 1)) IN
  IF st.phase = "open" THEN {TRUE} ELSE IF ops[k][1] = "write" /\ ops[k][2] > 0 THEN {FALSE} ELSE BOOLEAN

(* one complete stream *)
OneStream(out) == /\ out # <<>> /\ out[Len(out)] = End
                  /\ \A i \in 1..(Len(out) - 1) : out[i] # End
Pieces(out) == SelectSeq(out, LAMBDA x : x # End)
================================================================================
