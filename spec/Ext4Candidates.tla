---------------------------- MODULE Ext4Candidates ----------------------------
(* Handles on a device whose reads may fail.  A file or directory whose        *)
(* reading failed may stay where it was, go on after the block that could not  *)
(* be read, or, if the failure was elsewhere (in the tree), give nothing but   *)
(* errors from then on.  As it cannot be seen at once which of these it did,   *)
(* the state of a handle is the set of the states that its outcomes allow.  An *)
(* outcome lists the positions (hits) where reads failed, or found the device  *)
(* shorter than it was; what is returned must be right for the undamaged image *)
(* and an operation may only fail if one of its reads did.                     *)
EXTENDS Ext4Dir

Hit(o) == o.hits # <<>>
\* A failed seek, clone or the like is listed at a position of its own
Anywhere == <<255, 255, 255, 255, 255, 255, 255, 255>>
Within(pos, at, n) == pos = Anywhere \/ (WLe(at, pos) /\ WLt(pos, WAdd(at, WOf(n))))
Lost(h) == [h EXCEPT !.mode = "gone", !.pend = <<>>]

AfterFileFailure(img, fs, h, pos) ==
  LET u == Upcoming(img, fs, h) IN
  IF u.c = "data" /\ Within(pos, u.at, fs.bs) THEN {h, Advanced(h, u)} \cup (IF pos = Anywhere THEN {Lost(h)} ELSE {}) ELSE {h, Lost(h)}
\* A directory skips blocks without entries on the way
RECURSIVE AfterDirFailure(_, _, _, _)
AfterDirFailure(img, fs, h, pos) ==
  LET u == Upcoming(img, fs, h)
      g == Advanced(h, u)
      Blk == At(img, u.at, fs.bs)
  IN IF h.pend # <<>> THEN {h, Lost(h)}
     ELSE IF u.c = "zeros" THEN {h, Lost(h)} \cup AfterDirFailure(img, fs, g, pos)
     ELSE IF u.c # "data" THEN {h, Lost(h)}
     ELSE IF pos # Anywhere /\ Within(pos, u.at, fs.bs) THEN {h, g}
     ELSE IF u.n < fs.bs \/ ~DirBlockOk(Blk, fs.bs, h.seed) \/ DirEntries(Blk, fs.bs, h.seed) # <<>>
     THEN {h, g, Lost(h)}
     ELSE {h, Lost(h)} \cup AfterDirFailure(img, fs, g, pos)

KindOf(hs) == IF hs = {} THEN "none" ELSE (CHOOSE h \in hs : TRUE).kind
\* failed tells whether the outcome is a failure that faults excuse
StepFile(img, fs, hs, len, o, failed) ==
  {ReadFileTo(img, fs, h, len, o) : h \in {h \in hs : ReadFileOk(img, fs, h, len, o)}}
  \cup IF failed THEN UNION {AfterFileFailure(img, fs, h, o.hits[k]) : h \in hs, k \in 1..Len(o.hits)} ELSE {}
StepDir(img, fs, hs, o, failed) ==
  {NextEntryTo(img, fs, h, o) : h \in {h \in hs : NextEntryOk(img, fs, h, o)}}
  \cup IF failed THEN UNION {AfterDirFailure(img, fs, h, o.hits[k]) : h \in hs, k \in 1..Len(o.hits)} ELSE {}
=============================================================================
