------------------------------ MODULE Ext4Inode ------------------------------
(* Inodes: where they are and what they record.                                *)
EXTENDS Ext4Superblock

\* The first block of a group's inode table
TableOf(img, fs, g) == LowHigh(DescIn(img, fs.dt, fs.ds, g), 8, 40)
\* The position of an inode, as <<pos>>; <<>> if it does not exist.  n is Wide.
InodePos(img, fs, n) ==
  IF n = <<>> \/ WLt(fs.inodes, n) THEN <<>>
  ELSE LET d == WDiv(WSub(n, WOne), fs.ipg) IN
       IF ~WLt(d[1], WOf(fs.groups)) THEN <<>>
       ELSE << WAdd(WMulS(TableOf(img, fs, WInt(d[1])), fs.bs), WMulS(d[2], fs.isz)) >>
\* Its bytes, as <<bytes>>; <<>> if there are none
InodeRaw(img, fs, n) ==
  LET p == InodePos(img, fs, n) IN
  IF p = <<>> THEN <<>>
  ELSE IF ~Readable(img, p[1], WOf(fs.isz)) THEN <<>>
  ELSE << At(img, p[1], fs.isz) >>

Less(a, b) == IF a < b THEN a ELSE b
\* How much of an inode is in use
InUse(raw, isz) == IF isz > 130 THEN Less(128 + U16(raw, 128), Less(isz, 160)) ELSE 128
Cut(keep, o, n) == o < keep /\ keep < o + n       \* a field is only partly there

TwoTo31 == <<0, 0, 0, 128>>
\* Seconds since 1901-12-13 20:45:52 UTC, the earliest time there is, and
\* nanoseconds
Stamp(i, base, extra) ==
  LET s == WNorm(LeBytes(i, base, 4))
      up == IF WLt(s, TwoTo31) THEN WAdd(s, TwoTo31) ELSE WSub(s, TwoTo31)
      secs == WAdd(up, WShiftBytes(WOf(B(i, extra) % 4), 4))
      nanos == (B(i, extra) \div 4) + 64 * B(i, extra + 1) + 16384 * B(i, extra + 2)
               + 4194304 * B(i, extra + 3)
  IN IF nanos >= 1000000000 THEN <<WAdd(secs, WOne), nanos - 1000000000>> ELSE <<secs, nanos>>

TypeNumber(i) == U16(i, 0) \div 4096
SizeOf(i) == LowHigh(i, 4, 108)
InodeOk(raw, isz, v) ==
  LET keep == InUse(raw, isz)
      i == SubSeq(raw, 1, keep)
      Same(x, y, lo, ln, hi, hn) == Cut(keep, lo, ln) \/ Cut(keep, hi, hn) \/ x = y
  IN /\ v.type = TypeNumber(i)
     /\ v.perm = U16(i, 0) % 4096
     /\ v.uid = Split2(i, 2, 120) /\ v.gid = Split2(i, 24, 122)
     /\ v.size = SizeOf(i)
     /\ v.links = U16(i, 26)
     /\ v.blocks = WNorm(LeBytes(i, 28, 4) \o LeBytes(i, 116, 2))
     /\ v.flags = N(i, 32, 4) /\ v.gen = N(i, 100, 4)
     /\ v.acl = WNorm(LeBytes(i, 104, 4) \o LeBytes(i, 118, 2))
     /\ v.dtime = <<WAdd(N(i, 20, 4), TwoTo31), 0>>
     /\ Same(v.atime, Stamp(i, 8, 140), 8, 4, 140, 4)
     /\ Same(v.ctime, Stamp(i, 12, 132), 12, 4, 132, 4)
     /\ Same(v.mtime, Stamp(i, 16, 136), 16, 4, 136, 4)
     /\ Same(v.crtime, Stamp(i, 144, 148), 144, 4, 148, 4)
     /\ Same(v.ver, WNorm(LeBytes(i, 36, 4) \o LeBytes(i, 152, 4)), 36, 4, 152, 4)
     /\ Same(v.csum, WNorm(LeBytes(i, 124, 2) \o LeBytes(i, 130, 2)), 124, 2, 130, 2)
     /\ Same(v.project, N(i, 156, 4), 156, 4, 156, 4)
\* Outcome of reading inode n
StatOk(img, fs, n, o) ==
  LET r == InodeRaw(img, fs, n) IN
  IF r = <<>> THEN o.s = "err" ELSE o.s = "ok" /\ InodeOk(r[1], fs.isz, o.v)

\* The seed for the checksums of an inode's metadata
Le4(n) == Slice(n, 0, 4)
InodeSeed(fs, n, raw) ==
  IF fs.seed = <<>> THEN <<>>
  ELSE << Crc(Crc(fs.seed[1], Le4(n)), Slice(raw, 100, 4)) >>
=============================================================================
