------------------------------ MODULE Ext4File ------------------------------
(* Files: the extent tree says which block of the filesystem holds each block  *)
(* of the file, and reading is a walk over it, one block at a time.            *)
EXTENDS Ext4Inode

ExtentMagic == 62218                      \* 0xf30a
MaxDepth == 5
Entries(nd) == U16(nd, 2)
Depth(nd) == U16(nd, 6)
\* nd is the 60 bytes in an inode or a whole block of len bytes; seed is <<>>
\* or the seed of its checksum.
NodeOk(nd, len, seed) ==
  LET end == 12 + 12 * U16(nd, 4) IN
  /\ U16(nd, 0) = ExtentMagic
  /\ Entries(nd) <= U16(nd, 4)
  /\ end + (IF seed = <<>> THEN 0 ELSE 4) <= len
  /\ IF seed = <<>> THEN TRUE ELSE PairAt(nd, end) = Crc(seed[1], Slice(nd, 0, end))

ExtentLen(raw) == IF raw <= 32768 THEN raw ELSE raw - 32768
\* The tree as a sequence of runs of blocks.  A run "break" stands for a place
\* where the tree cannot be followed; gap tells if that is only because nothing
\* is mapped there.  The rest of the node with the break is left out, but what
\* comes after that node may fit on again.  acc is [runs, pos (Wide), stop].
Stop(acc, gap) ==
  [acc EXCEPT !.runs = Append(@, [t |-> "break", gap |-> gap, len |-> 0, init |-> TRUE, at |-> <<>>]),
              !.stop = TRUE]
RECURSIVE Flatten(_, _, _, _, _)
Flatten(img, fs, seed, nd, acc0) ==
  LET Leaf(acc, e) ==
        LET first == Le(nd, 12 + 12 * e, 4)
            raw == U16(nd, 12 + 12 * e + 4)
            at == WNorm(LeBytes(nd, 12 + 12 * e + 8, 4) \o LeBytes(nd, 12 + 12 * e + 6, 2))
        IN IF acc.stop THEN acc
           ELSE IF first # acc.pos \/ raw = 0 THEN Stop(acc, WLt(acc.pos, first) /\ raw # 0)
           ELSE [acc EXCEPT !.runs = Append(@, [t |-> "run", gap |-> FALSE, len |-> ExtentLen(raw),
                                                init |-> raw <= 32768, at |-> at]),
                            !.pos = WAdd(@, WOf(ExtentLen(raw)))]
      Branch(acc, e) ==
        LET first == Le(nd, 12 + 12 * e, 4)
            at == WMulS(WNorm(LeBytes(nd, 12 + 12 * e + 4, 4) \o LeBytes(nd, 12 + 12 * e + 8, 2)), fs.bs)
        IN IF acc.stop THEN acc
           ELSE IF first # acc.pos THEN Stop(acc, WLt(acc.pos, first))
           ELSE IF ~Readable(img, at, WOf(fs.bs)) THEN Stop(acc, FALSE)
           ELSE LET sub == At(img, at, fs.bs) IN
                IF ~NodeOk(sub, fs.bs, seed) \/ Entries(sub) = 0 \/ Depth(sub) + 1 # Depth(nd)
                THEN Stop(acc, FALSE)
                ELSE [Flatten(img, fs, seed, sub, acc) EXCEPT !.stop = FALSE]
      es == SubSeq([e \in 1..Entries(nd) |-> e - 1], 1, Entries(nd))
  IN IF Depth(nd) = 0 THEN FoldLeft(Leaf, acc0, es) ELSE FoldLeft(Branch, acc0, es)
Runs(img, fs, seed, root) ==
  Flatten(img, fs, seed, root, [runs |-> <<>>, pos |-> <<>>, stop |-> FALSE]).runs

\* An open file
Handle(img, fs, n, raw) ==
  LET seed == InodeSeed(fs, n, raw) IN
  [kind |-> IF TypeNumber(raw) = 4 THEN "dir" ELSE "file",
   runs |-> Runs(img, fs, seed, Slice(raw, 40, 60)), r |-> 1, k |-> 0,
   done |-> <<>>, size |-> SizeOf(raw), seed |-> seed,
   mode |-> "live", pend |-> <<>>]

HasExtents(raw) == Bit(raw, 32, 19) /\ ~Bit(raw, 32, 28)
RootOk(raw) == LET nd == Slice(raw, 40, 60) IN NodeOk(nd, 60, <<>>) /\ Depth(nd) <= MaxDepth
\* What opening inode n gives: "err", "file", "dir" or "other"
OpenClass(img, fs, n) ==
  LET r == InodeRaw(img, fs, n) IN
  IF r = <<>> THEN "err"
  ELSE LET raw == r[1] IN
       IF TypeNumber(raw) \notin {4, 8} THEN "other"
       ELSE IF ~HasExtents(raw) THEN "err"
       ELSE IF ~RootOk(raw) THEN "err"
       ELSE IF TypeNumber(raw) = 8 THEN "file"
       ELSE IF Bit(raw, 32, 12) THEN "err"    \* indexed directories are not supported
       ELSE "dir"
OpenFileOk(img, fs, n, o) ==
  LET c == OpenClass(img, fs, n) IN
  CASE c = "err" -> o.s = "err"
    [] c = "other" -> /\ o.s = "ok" /\ o.v.t = "other"
                      /\ o.v.n = TypeNumber(InodeRaw(img, fs, n)[1])
    [] c = "file" -> o.s = "ok" /\ o.v.t = "file" /\ o.v.size = SizeOf(InodeRaw(img, fs, n)[1])
    [] c = "dir" -> o.s = "ok" /\ o.v.t = "dir"

-----------------------------------------------------------------------------
(* Reading the next block.  mode is "live"; "after" once the tree could not be *)
(* followed somewhere: from then on, an error is never wrong, but data must    *)
(* still be the right data; "gone" once such an error came where data could    *)
(* have been; or "free" where nothing is specified any more (after a hole was  *)
(* read as zeros).                                                             *)
RECURSIVE Skip(_)
Skip(h) == IF h.r > Len(h.runs) THEN h
           ELSE IF h.runs[h.r].t = "run" /\ h.k >= h.runs[h.r].len
                THEN Skip([h EXCEPT !.r = @ + 1, !.k = 0])
           ELSE h
Complete(h) == h.done = h.size
Left(h, bs) == LET rest == WSub(h.size, h.done) IN
               IF WLe(WOf(bs), rest) THEN bs ELSE WInt(rest)
\* What comes next: [c |-> class, n |-> bytes, at |-> position]
Upcoming(img, fs, h0) ==
  LET h == Skip(h0)
      R(c) == [c |-> c, n |-> 0, at |-> <<>>]
  IN IF h.mode \in {"gone", "free"} THEN R(h.mode)
     ELSE IF h.r > Len(h.runs) THEN R(IF Complete(h) THEN "end" ELSE "short")
     ELSE LET run == h.runs[h.r] IN
          IF run.t = "break" THEN R(IF run.gap /\ h.mode = "live" THEN "gap" ELSE "broken")
          ELSE IF Complete(h) THEN R("past")
          ELSE LET at == WMulS(WAdd(run.at, WOf(h.k)), fs.bs)
                   n == Left(h, fs.bs)
               IN IF ~run.init THEN [c |-> "zeros", n |-> n, at |-> <<>>]
                  ELSE IF Readable(img, at, WOf(fs.bs)) THEN [c |-> "data", n |-> n, at |-> at]
                  ELSE [c |-> "unreadable", n |-> n, at |-> at]
Advanced(h0, u) ==
  LET h == Skip(h0) IN
  CASE u.c \in {"data", "zeros", "unreadable"} ->
         [h EXCEPT !.k = @ + 1, !.done = WAdd(@, WOf(u.n))]
    [] u.c \in {"gap", "broken", "past"} -> [h EXCEPT !.mode = "after", !.r = @ + 1, !.k = 0]
    [] u.c = "short" -> [h EXCEPT !.mode = "after"]
    [] OTHER -> h

IsEnd(o) == o.s = "ok" /\ o.v.n = 0
ReadFileOk(img, fs, h, len, o) ==
  LET u == Upcoming(img, fs, h) IN
  IF len < fs.bs THEN o.s = "err"
  ELSE CASE h.mode = "after" /\ o.s = "err" -> TRUE
         [] u.c = "data" -> IF o.s = "ok" THEN /\ o.v.n = u.n /\ o.v.tail
                                               /\ Describes(o.v.c, img, u.at, u.n)
                            ELSE FALSE
         [] u.c = "zeros" -> o.s = "ok" /\ o.v.n = u.n /\ o.v.tail /\ AllZero(o.v.c, u.n)
         [] u.c = "end" -> IsEnd(o)
         [] u.c = "past" -> o.s = "err" \/ IsEnd(o)
         [] u.c \in {"gone", "broken"} -> o.s = "err" \/ (IsEnd(o) /\ Complete(h))
         [] u.c = "unreadable" -> o.s = "err"
         [] u.c \in {"gap", "short"} ->
              o.s = "err" \/ (o.s = "ok" /\ o.v.n > 0 /\ o.v.n <= fs.bs /\ AllZero(o.v.c, o.v.n))
         [] u.c = "free" -> o.s \in {"ok", "err"}
ReadFileTo(img, fs, h, len, o) ==
  LET u == Upcoming(img, fs, h) IN
  IF len < fs.bs THEN h
  ELSE IF u.c \in {"gap", "short"} /\ o.s = "ok" THEN [h EXCEPT !.mode = "free"]
  ELSE IF u.c \in {"data", "zeros"} /\ o.s = "err" THEN [h EXCEPT !.mode = "gone"]
  ELSE IF u.c \in {"past", "broken"} /\ o.s = "ok" THEN h
  ELSE Advanced(h, u)

-----------------------------------------------------------------------------
(* Many reads at once: the outcome lists runs [o, u, n] of n reads with the    *)
(* same outcome o, but that patterned contents, if they are all there is,      *)
(* start at unit u and go on from there.                                       *)
RunOutcome(fs, run, j) ==
  IF run.o.s = "ok" /\ run.u > 0
  THEN [run.o EXCEPT !.v.c = << [run.o.v.c[1] EXCEPT !.n = run.u + j * (fs.bs \div 1024)] >>]
  ELSE run.o
Skim(img, fs, h0, len, k, runs) ==
  FoldLeft(LAMBDA acc, j :
             IF ~acc.ok \/ acc.r > Len(runs) THEN [acc EXCEPT !.ok = FALSE]
             ELSE LET o == RunOutcome(fs, runs[acc.r], acc.j)
                      more == acc.j + 1 < runs[acc.r].n
                  IN [h |-> ReadFileTo(img, fs, acc.h, len, o),
                      ok |-> ReadFileOk(img, fs, acc.h, len, o),
                      r |-> IF more THEN acc.r ELSE acc.r + 1,
                      j |-> IF more THEN acc.j + 1 ELSE 0],
           [h |-> h0, ok |-> TRUE, r |-> 1, j |-> 0], SubSeq([j \in 1..k |-> j], 1, k))
SkimOk(img, fs, h, len, k, o) ==
  IF o.s # "ok" THEN FALSE
  ELSE LET e == Skim(img, fs, h, len, k, o.v) IN e.ok /\ e.r = Len(o.v) + 1
SkimTo(img, fs, h, len, k, o) == Skim(img, fs, h, len, k, o.v).h
=============================================================================
