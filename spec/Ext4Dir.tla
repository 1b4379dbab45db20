------------------------------- MODULE Ext4Dir -------------------------------
(* Directories: the entries in use in each block, block by block.              *)
EXTENDS Ext4File

\* The entries in use in a block's bytes from o up to len.  An entry that does
\* not fit ends the block.
RECURSIVE Live(_, _, _)
Live(b, o, len) ==
  LET rec == U16(b, o + 4)
      name == B(b, o + 6)
      e == [ino |-> Le(b, o, 4), type |-> B(b, o + 7), name |-> CString(b, o + 8, name)]
  IN IF len - o < 8 THEN <<>>
     ELSE IF rec > len - o \/ rec < 8 + name THEN <<>>
     ELSE (IF e.ino = <<>> THEN <<>> ELSE <<e>>) \o Live(b, o + rec, len)

\* With checksums, the last 12 bytes of a block are disguised as an unused
\* entry and hold the checksum of the rest.
TailOk(b, bs, seed) ==
  LET o == bs - 12 IN
  /\ Le(b, o, 4) = <<>> /\ U16(b, o + 4) = 12 /\ B(b, o + 6) = 0 /\ B(b, o + 7) = 222
  /\ PairAt(b, o + 8) = Crc(seed, Slice(b, 0, o))
DirBlockOk(b, bs, seed) == IF seed = <<>> THEN TRUE ELSE TailOk(b, bs, seed[1])
DirEntries(b, bs, seed) == Live(b, 0, IF seed = <<>> THEN bs ELSE bs - 12)

\* Reads blocks until there is something to report: [h, r] where r is
\* "entries", "err", "end" or "past" (the end, but blocks follow).
RECURSIVE Fill(_, _, _)
Fill(img, fs, h) ==
  IF h.pend # <<>> THEN [h |-> h, r |-> "entries"]
  ELSE LET u == Upcoming(img, fs, h)
           g == Advanced(h, u)
           Blk == At(img, u.at, fs.bs)
       IN CASE u.c = "data" ->
                 IF u.n < fs.bs \/ ~DirBlockOk(Blk, fs.bs, h.seed) THEN [h |-> g, r |-> "err"]
                 ELSE Fill(img, fs, [g EXCEPT !.pend = DirEntries(Blk, fs.bs, h.seed)])
            [] u.c = "zeros" ->
                 \* An unwritten block has no entries and no checksum
                 IF u.n < fs.bs \/ h.seed # <<>> THEN [h |-> g, r |-> "err"]
                 ELSE Fill(img, fs, g)
            [] u.c \in {"end", "past"} -> [h |-> g, r |-> u.c]
            [] OTHER -> [h |-> g, r |-> "err"]
IsLast(o) == o.s = "ok" /\ o.v = <<>>
\* Outcome of asking for the next entry: v is <<>> at the end or <<entry>>
NextEntryOk(img, fs, h, o) ==
  LET f == Fill(img, fs, h) IN
  CASE h.mode # "live" /\ o.s = "err" -> TRUE
    [] f.r = "entries" -> o.s = "ok" /\ o.v = <<Head(f.h.pend)>>
    [] f.r = "end" -> IsLast(o)
    [] f.r = "past" -> o.s = "err" \/ IsLast(o)
    [] f.r = "err" -> o.s = "err" \/ (h.mode # "live" /\ IsLast(o) /\ Complete(h))
NextEntryTo(img, fs, h, o) ==
  LET f == Fill(img, fs, h) IN
  IF f.r = "entries" THEN
    IF o.s = "err" THEN [h EXCEPT !.mode = "gone", !.pend = <<>>]
    ELSE [f.h EXCEPT !.pend = Tail(@)]
  ELSE IF f.r = "past" /\ o.s = "ok" THEN h
  ELSE f.h
=============================================================================
