---------------------------- MODULE MalformedEntries ----------------------------
(* Entries of event records and files: which of them are needed to read the events,
   and what makes them unusable. *)
EXTENDS Integers, Sequences

Formats == {"hepmc", "lhef", "stripper", "normalization"}

(* needed entries. role: "out" for outgoing particles, "in" for others, "" elsewhere;
   asked: named weights take part in the resampling *)
Needed(fmt, line, entry, role, asked) ==
  CASE fmt = "hepmc" /\ line = "E" -> entry \in {"nvertices", "nrandom", "nweights", "weight"} \/ (asked /\ entry = "named weight")
    [] fmt = "hepmc" /\ line = "U" -> entry \in {"energy unit", "line start"}
    [] fmt = "hepmc" /\ line = "N" -> asked /\ entry \in {"number of names", "name"}
    [] fmt = "hepmc" /\ line = "V" -> entry \in {"norphans", "nout", "line start"}
    [] fmt = "hepmc" /\ line = "P" -> \/ entry \in {"status", "line start"}
                                      \/ role = "out" /\ entry \in {"id", "px", "py", "pz", "E"}
    [] fmt = "lhef" /\ line = "event" -> entry \in {"NUP", "XWGTUP"}
    [] fmt = "lhef" /\ line = "particle" -> \/ entry = "status"
                                            \/ role = "out" /\ entry \in {"id", "px", "py", "pz", "E"}
    [] fmt = "stripper" /\ line = "se" -> entry = "weight"
    [] fmt = "stripper" /\ line = "p" -> \/ entry = "status"
                                         \/ role = "out" /\ entry \in {"id", "px", "py", "pz", "E"}
    [] fmt = "stripper" /\ line = "Eventrecord" -> entry \in {"nevents", "name"}
    [] fmt = "normalization" -> entry \in {"xsection", "contribution"}
    [] OTHER -> FALSE

Entries(fmt, line) ==
  CASE fmt = "hepmc" /\ line = "E" -> {"event number", "scale", "nvertices", "nrandom", "nweights", "weight", "named weight"}
    [] fmt = "hepmc" /\ line = "U" -> {"energy unit", "length unit", "line start"}
    [] fmt = "hepmc" /\ line = "N" -> {"number of names", "name"}
    [] fmt = "hepmc" /\ line = "V" -> {"norphans", "nout", "line start"}
    [] fmt = "hepmc" /\ line = "P" -> {"line start", "barcode", "id", "px", "py", "pz", "E", "mass", "status", "theta"}
    [] fmt = "lhef" /\ line = "event" -> {"NUP", "IDPRUP", "XWGTUP", "SCALUP"}
    [] fmt = "lhef" /\ line = "particle" -> {"id", "status", "mother", "px", "py", "pz", "E", "mass", "spin"}
    [] fmt = "stripper" /\ line = "se" -> {"weight", "muR"}
    [] fmt = "stripper" /\ line = "p" -> {"status", "id", "px", "py", "pz", "E"}
    [] fmt = "stripper" /\ line = "Eventrecord" -> {"nevents", "name"}
    [] fmt = "normalization" /\ line = "Contribution" -> {"xsection", "contribution"}
    [] OTHER -> {}
Lines == {"E", "U", "N", "V", "P", "event", "particle", "se", "p", "Eventrecord", "Contribution"}

Kind(entry) ==
  CASE entry \in {"nvertices", "nrandom", "nweights", "norphans", "nout", "number of names", "NUP", "nevents"} -> "count"
    [] entry \in {"id", "status"} -> "integer"
    [] entry \in {"weight", "named weight", "px", "py", "pz", "E", "xsection"} -> "number"
    [] entry = "energy unit" -> "unit"
    [] entry = "line start" -> "line start"
    [] OTHER -> "text"

(* what is not a value of that kind *)
Garbled(kind) ==
  CASE kind = "count" -> {"x", "-1", "1.5", "--2", "99999999999999999999999", "1x"}
    [] kind = "integer" -> {"x", "1.5", "--2", "99999999999", "1x", "0x1"}
    [] kind = "number" -> {"x", "nan", "NaN", "inf", "-inf", "1.2.3", "1e", "--1", "1,5", "0x1F", "1e999", "1.0d0", "12abc", "-", "."}
    \* letters that start no line of an event record
    [] kind = "line start" -> {"A", "D", "G", "M", "Q", "X", "Z", "v", "p", "u", "1", "-", "#"}
    [] kind = "unit" -> {"XEV", "gev!", "1"}
    [] OTHER -> {"\"", "<"}

Faults(entry) == {<<"garbled", t>> : t \in Garbled(Kind(entry))} \cup (IF Kind(entry) = "line start" THEN {} ELSE {<<"missing", "">>})
                 \* announces more than there is
                 \cup IF entry \in {"nweights", "nrandom", "NUP"} THEN {<<"more", "">>} ELSE {}


(* damaging the entry has to be reported. Announcing more particles, weights or names than there are
   is damage, too *)
MustReject(c) == Needed(c.fmt, c.line, c.entry, c.role, c.asked)

(* damage to what nobody needs: entries without a meaning for the resampling, names of weights nobody
   asked for, momenta of particles that are not outgoing (where they come after the status) *)
MustAccept(c) ==
  /\ ~MustReject(c)
  /\ c.fmt # "normalization" /\ c.line # "Eventrecord"
  /\ \/ c.fault = "garbled" /\ c.entry \in {"event number", "scale", "length unit", "barcode", "mass", "theta",
                                            "IDPRUP", "SCALUP", "mother", "spin", "muR"}
     \/ c.line = "N" /\ c.fault # "more"
     \/ c.fmt \in {"lhef", "stripper"} /\ c.role = "in" /\ c.entry \in {"px", "py", "pz", "E"}

================================================================================
