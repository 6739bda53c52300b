---------------------------- MODULE CompressionTrace ----------------------------
(* kind "stream": operations on a writer, whether they were successful, and the pieces that the
     file contains, an END mark for the end of each complete stream (see Compression)
   kind "size": size of the output for a level, and of the same data compressed by the library of
     that format, for all levels. The output is no closer to that of any other level.
     checksum: whether the format protects the content
   kind "level": a run with a setting, and the sizes the library writes for each level
   kind "setting": a run of a tool with a setting [name, level], written with other text around it
     if junk. err: reported as usage error; algo: format of the output (recognised by its content);
     same: it decompresses to what is written without compression; ref: sizes for the
     selected level, or <<>> *)
EXTENDS TraceBase, Compression

Dist(a, b) == IF a > b THEN a - b ELSE b - a
Near(a, b) == Dist(a, b) * 50 <= b + 3200

Nearest(n, refs, i) == \A j \in DOMAIN refs : Dist(n, refs[i]) <= Dist(n, refs[j])

CompressionLineOk(x) ==
  CASE x.kind = "stream" ->
         /\ x.out = DoAll("ok", x.ops).out
         /\ \A k \in DOMAIN x.res : x.res[k] \in Success(x.ops, k)
    [] x.kind = "size" ->
         /\ Near(x.size, x.refs[x.sel]) /\ Nearest(x.size, x.refs, x.sel)
         /\ (x.algo \in Checksummed => x.checksum)
    [] x.kind = "level" ->
         LET s == Select(x.name, x.level) IN
         x.rc = 0 /\ x.algo = s.algo /\ Near(x.size, x.refs[s.lvl + 1]) /\ Nearest(x.size, x.refs, s.lvl + 1)
    [] x.kind = "setting" ->
         LET s == IF x.junk THEN Refused ELSE Select(x.name, x.level) IN
         IF ~s.ok THEN x.rc # 0 /\ x.err /\ x.files = 0
         ELSE x.rc = 0 /\ x.algo = s.algo /\ x.same /\ \A i \in DOMAIN x.ref : Near(x.size, x.ref[i])
================================================================================
