---------------------------- MODULE CompressionModel ----------------------------
(* All short histories of a compressed output stream. *)
EXTENDS Compression, TLC, Json

CONSTANTS MaxOps, Variant, Emit
Sizes == {0, 10, 70000}
Ops == {<<"write", n>> : n \in Sizes} \cup {<<"flush", 0>>, <<"finish", 0>>}

VARIABLES ops, st
Init == ops = <<>> /\ st = Open
Step(op) == /\ ops' = Append(ops, op)
            /\ st' = Do(Variant, st, Len(ops) + 1, op)
Next == \/ /\ st.phase # "dropped" /\ Len(ops) < MaxOps
           /\ \E op \in Ops : Step(op)
        \/ /\ st.phase # "dropped" /\ Step(<<"drop", 0>>)
           /\ Emit => PrintT("CASE " \o ToJson(ops))
Spec == Init /\ [][Next]_<<ops, st>>

Written == SelectSeq([k \in 1..Len(ops) |-> k],
                     LAMBDA k : ops[k][1] = "write" /\ ops[k][2] > 0 /\ \A j \in 1..(k - 1) : ops[j][1] # "finish")
(* C19: when the writer is gone there is one complete stream of all that was accepted *)
Complete == st.phase = "dropped" => OneStream(st.out)
Content == Pieces(st.out) = Written
Functional == Variant = "ok" => st = DoAll("ok", ops)
================================================================================
