---------------------------------- MODULE Options ----------------------------------
(* Which command lines the tools accept. An option is <<name, text, number>>:
   its name, its value as far as it is text, and the number in it (or NoNumber).
   Command lines may refer to argument files, whose lines are arguments. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NoNumber == 999999999
Tools == {"cres", "cres-partition", "cres-classify-events"}

Common == {"jetalgorithm", "jetradius", "jetpt", "leptonalgorithm", "leptonradius", "leptonpt",
           "photonefrac", "photonradius", "photonpt", "include-neutrinos", "ptweight", "threads",
           "compression", "loglevel"}
OptionsOf(tool) ==
  CASE tool = "cres" -> Common \cup {"outdir", "minweight", "seed", "search", "strategy", "max-cell-size", "weights"}
    [] tool = "cres-partition" -> Common \cup {"outfile", "regions"}
    [] tool = "cres-classify-events" -> {"partition", "outdir", "compression", "loglevel"}
Required(tool) ==
  CASE tool = "cres" -> {"outdir", "jetalgorithm", "jetradius", "jetpt"}
    [] tool = "cres-partition" -> {"outfile", "jetalgorithm", "jetradius", "jetpt", "regions"}
    [] tool = "cres-classify-events" -> {"partition", "outdir"}
Groups == {{"leptonalgorithm", "leptonradius", "leptonpt"}, {"photonefrac", "photonradius", "photonpt"}}

Algorithms == {"anti-kt", "kt", "Cambridge-Aachen"}
Strategies == {"any", "most_negative", "least_negative"}
MaxLevel == [gzip |-> 9, zstd |-> 19, lz4 |-> 16]
IsPow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}

IsNumber(o) == o[3] # NoNumber
ValueOk(o) ==
  CASE o[1] \in {"jetalgorithm", "leptonalgorithm"} -> o[2] \in Algorithms
    [] o[1] = "strategy" -> o[2] \in Strategies
    [] o[1] = "search" -> o[2] \in {"tree", "naive"}
    [] o[1] = "compression" ->
         \/ o[2] \in {"bzip2", "gzip", "zstd", "lz4"} /\ ~IsNumber(o)
         \/ o[2] \in {"gzip", "zstd", "lz4"} /\ IsNumber(o) /\ 0 <= o[3] /\ o[3] <= MaxLevel[o[2]]
    [] o[1] = "regions" -> IsNumber(o) /\ IsPow2(o[3])
    [] o[1] \in {"minweight", "threads", "seed"} -> IsNumber(o) /\ o[3] >= 0
    [] o[1] \in {"jetradius", "jetpt", "leptonradius", "leptonpt", "photonefrac", "photonradius", "photonpt", "ptweight",
                 "max-cell-size"} -> IsNumber(o)
    [] OTHER -> TRUE

Accepted(tool, opts) ==
  LET given == {opts[i][1] : i \in 1..Len(opts)}
  IN /\ given \subseteq OptionsOf(tool)
     /\ Required(tool) \subseteq given
     /\ \A i \in 1..Len(opts) : ValueOk(opts[i])
     /\ \A g \in Groups : g \cap given \in {{}, g}

(* ---- command lines to try ---- *)
Opt(name, text, num) == <<name, text, num>>
Valid(name) ==
  CASE name \in {"jetalgorithm", "leptonalgorithm"} -> Opt(name, "kt", NoNumber)
    [] name = "strategy" -> Opt(name, "any", NoNumber)
    [] name = "search" -> Opt(name, "naive", NoNumber)
    [] name = "compression" -> Opt(name, "gzip", 3)
    [] name = "regions" -> Opt(name, "", 4)
    [] name = "weights" -> Opt(name, "central", NoNumber)
    [] name \in {"outdir", "outfile", "partition", "include-neutrinos", "loglevel"} -> Opt(name, "", NoNumber)
    [] OTHER -> Opt(name, "", 1)
Values(name) ==
  CASE name \in {"jetalgorithm", "leptonalgorithm"} ->
         {Opt(name, t, NoNumber) : t \in Algorithms \cup {"", "AKT", "durham", "anti", "kt ", "siscone"}}
    [] name = "strategy" -> {Opt(name, t, NoNumber) : t \in Strategies \cup {"", "none", "most", "mostnegative", "positive"}}
    [] name = "search" -> {Opt(name, t, NoNumber) : t \in {"tree", "naive", "", "brute", "trees"}}
    [] name = "compression" ->
         {Opt(name, t, NoNumber) : t \in {"bzip2", "gzip", "zstd", "lz4", "", "xz", "zip", "gzip_", "zstd_x", "gzip-3", "_3", "none"}}
         \cup {Opt(name, t, n) : t \in {"bzip2", "gzip", "zstd", "lz4", "xz"},
                                 n \in {0, 1, 3, 9, 10, 16, 17, 19, 20, 22, 255, 256, 300, 65536}}
    [] name = "regions" -> {Opt(name, "", n) : n \in 0..40 \cup {63, 64, 96, 128, 1000, 1024, 4095, -2, -4}}
                           \cup {Opt(name, t, NoNumber) : t \in {"", "two", "4.0", "0x4"}}
    [] name \in {"minweight", "threads", "seed"} -> {Opt(name, "", n) : n \in {0, 1, 3, -1, -5}}
                                             \cup {Opt(name, t, NoNumber) : t \in {"", "x", "1,5"}}
    [] name \in {"outdir", "outfile", "partition", "include-neutrinos", "loglevel", "weights"} -> {Valid(name)}
    [] OTHER -> {Opt(name, "", n) : n \in {1, 2}} \cup {Opt(name, t, NoNumber) : t \in {"", "x", "1,5"}}
AllOptions == UNION {OptionsOf(t) : t \in Tools}

Seq1(S) == SetToSeq(S)
Base(tool) == {Valid(n) : n \in Required(tool)}
Lines(tool) ==
  \* complete and incomplete groups
  {Base(tool) \cup {Valid(n) : n \in G} : G \in IF tool = "cres-classify-events" THEN {{}} ELSE SUBSET (UNION Groups)}
  \* one further option (with the remainder of its group), or another value of a required one
  \cup UNION {{{o \in Base(tool) : o[1] # n} \cup {v}
               \cup {Valid(g) : g \in (UNION {H \in Groups : n \in H}) \ {n}} : v \in Values(n)}
              : n \in AllOptions}
  \* a required option is missing
  \cup {{o \in Base(tool) : o[1] # n} : n \in Required(tool)}
  \* an argument file that does not exist, and an unknown option
  \cup {Base(tool) \cup {Opt(n, "", NoNumber)} : n \in {"missing-file", "frobnicate"}}

(* ---- argument files, as a state machine ---- *)
CONSTANT Variant
VARIABLES args, files, todo, seen
vars == <<args, files, todo, seen>>
(* arguments: numbers; -k stands for argument file k *)
ArgSeqs(n, S) == UNION {[1..m -> S] : m \in 0..n}
Init == /\ args \in ArgSeqs(3, {1, 2, -1, -2})
        /\ files \in [{1, 2} -> ArgSeqs(2, {1, 2})]
        /\ todo = args /\ seen = <<>>
Step == /\ todo # <<>>
        /\ IF Head(todo) > 0
           THEN seen' = Append(seen, Head(todo)) /\ todo' = Tail(todo)
           ELSE /\ todo' = IF Variant = "last" THEN Tail(todo) \o files[-Head(todo)] ELSE files[-Head(todo)] \o Tail(todo)
                /\ UNCHANGED seen
        /\ UNCHANGED <<args, files>>
Spec == Init /\ [][Step]_vars
Inlined == FoldLeft(LAMBDA acc, a : IF a > 0 THEN Append(acc, a) ELSE acc \o files[-a], <<>>, args)
AsIfGiven == todo = <<>> => seen = Inlined
====================================================================================
