----------------------------- MODULE CompressionGen -----------------------------
(* Settings for compressed output and what they select. *)
EXTENDS Compression, Json, TLC
Names == {"bzip2", "bz2", "gzip", "gz", "lz4", "zstd", "zstandard", "xz", "zip", "none", "gzipp", "g", "lz", "brotli", "bzip", "z", ""}
Levels == {-1} \cup 0..21 \cup {30, 99, 100, 255, 256, 257, 262, 300, 999, 65536, 65542}
ASSUME \A n \in Names : \A l \in Levels :
         PrintT("CASE " \o ToJson([name |-> n, level |-> l, sel |-> Select(n, l)]))
VARIABLE g
GSpec == g = 0 /\ [][FALSE]_g
================================================================================
