------------------------ MODULE Trace_MdSuperblock ------------------------
(* Judges what the implementation read from a device holding one superblock.   *)
EXTENDS MdSuperblock, TraceBase

Minor(k) == CASE k = "v1.2" -> 2 [] k = "v1.1" -> 1 [] k = "v1.0" -> 0
Want(c) ==
  IF c.k = "v0" THEN (IF V0Valid(c.b) THEN V0Decode(c.b) ELSE <<>>)
  ELSE (IF V1Valid(c.b) THEN V1Decode(c.b, Minor(c.k)) ELSE <<>>)

Fields == {"major", "minor", "uuid", "name", "named", "algorithm", "size", "chunk", "disks",
           "reshape", "offset", "index", "events", "roles", "bitmap", "ppl", "recovery", "journal"}
Check(c) ==
  LET want == Want(c) IN
  IF c.out.s # "ok" THEN Bad(c, c.out.s)
  ELSE IF want = <<>>
  THEN IF c.out.v.k = "missing" THEN TRUE ELSE Bad(c, <<"accepted as", c.out.v.k>>)
  ELSE IF c.out.v.k # "sb" THEN Bad(c, <<"refused as", c.out.v.k>>)
  ELSE LET wrong == {f \in Fields : c.out.v.sb[f] # want[f]} IN
       IF wrong = {} THEN TRUE
       ELSE Bad(c, [f \in wrong |-> <<"want", want[f], "got", c.out.v.sb[f]>>])

Next == Judge(Check)
=============================================================================
