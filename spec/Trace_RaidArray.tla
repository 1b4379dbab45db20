-------------------------- MODULE Trace_RaidArray --------------------------
(* Judges array capacities and sector reads recorded from the implementation.  *)
(* A case lists the members with their superblocks, sizes, block sizes,        *)
(* unreadable sectors and sectors which are not zero, as runs of equal bytes.  *)
EXTENDS RaidReshape, MdDiagnosis, TraceBase

FormatOf(ms, F(_)) ==
  LET f == {F(ms[d]) : d \in Dom(ms)}
  IN IF (\E d \in Dom(ms) : ~HasSb(ms[d])) \/ Cardinality(f) # 1 THEN <<>>
     ELSE LET x == CHOOSE x \in f : TRUE
              known == /\ WFitsInt(x[1][1]) /\ WFitsInt(x[1][2])
                       /\ Supported(WInt(x[1][1]), WInt(x[1][2]))
          IN << [known |-> known, level |-> IF known THEN WInt(x[1][1]) ELSE 0,
                 layout |-> IF known THEN WInt(x[1][2]) ELSE 0,
                 n |-> x[2], size |-> x[3], chunk |-> x[4]] >>

\* A member that is being reshaped says so with <<algorithm, position, delta, chunk, offset>>
Count(m) == IF m.reshape = <<>> THEN m.disks ELSE OldCount(m.disks, m.reshape[3])
Format(ms) == FormatOf(ms, LAMBDA m : <<m.algorithm, Count(m), m.size, m.chunk>>)
NewFormat(ms) == FormatOf(ms, LAMBDA m : <<m.reshape[1], m.disks, m.size, m.reshape[4]>>)
Reshaping(ms) == \E d \in Dom(ms) : HasSb(ms[d]) /\ ms[d].reshape # <<>>
\* The members agree on a reshape of the kind that the specification covers
OneReshape(ms) ==
  /\ \A d \in Dom(ms) : HasSb(ms[d]) /\ ms[d].reshape # <<>> /\ ms[d].reshape = ms[1].reshape
  /\ ~Shrinks(ms[1].reshape[3])
  /\ ms[1].reshape[5] = WZero

\* <<>>: there is none to tell
Capacity(fmt) ==
  IF fmt = <<>> THEN <<>>
  ELSE LET f == fmt[1] IN
    IF ~f.known THEN <<>>
    ELSE IF WLt(f.n, WOf(ParityDevices(f.level))) THEN <<>>
    ELSE LET c == CapacityW(f.level, f.n, f.size) IN IF WFits(c, 8) THEN <<c>> ELSE <<>>

\* What member m of the case gives for its sector phys
Sector(c, m, phys) ==
  LET byte == WMulS(phys, 512)
      bs == m.bs
      usable == WSub(m.size, WRem(m.size, WOf(bs)))
      \* The blocks which a sector is in
      Lo(sector) == WQuo(WMulS(sector, 512), WOf(bs))
      Hi(sector) == WQuo(WAdd(WMulS(sector, 512), WOf(511)), WOf(bs))
      at == {k \in 1..Len(m.data) : m.data[k][1] = phys}
  IN IF ~WFits(byte, 8) \/ WLt(usable, WAdd(byte, WOf(512)))
     THEN [r |-> "no", v |-> <<>>]
     ELSE IF \E k \in 1..Len(m.bad) : m.bad[k] = phys THEN [r |-> "no", v |-> <<>>]
     ELSE [r |-> IF \E k \in 1..Len(m.bad) : WLe(Lo(m.bad[k]), Hi(phys)) /\ WLe(Lo(phys), Hi(m.bad[k]))
                 THEN "maybe" ELSE "yes",
           v |-> IF at = {} THEN [k \in 1..(Len(c.cuts) - 1) |-> 0]
                 ELSE m.data[CHOOSE k \in at : TRUE][2]]

Permitted(c, ms, claims, fmt, cap, x, len) ==
  IF cap = <<>> \/ len < 512 THEN {<<>>}
  ELSE IF WLe(cap[1], x) THEN {<<>>}
  ELSE LET f == fmt[1]
           loc == LocateW(f.level, f.layout, f.n, f.chunk, x)
       IN IF loc = <<>> \/ WLt(WOf(Len(ms)), f.n) THEN {<<>>}
          ELSE LET n == WInt(f.n)
                   act == ActiveIn(claims)
                   G(num) == LET s == {d \in act : claims[d] = <<WOf(num)>>} IN
                     IF s = {} THEN [r |-> "no", v |-> <<>>]
                     ELSE LET d == CHOOSE d \in s : TRUE
                              phys == WAdd(loc[1], ms[d].offset)
                          IN Sector(c, c.members[d], phys)
                   par == [k \in 1..(Len(loc) - 2) |-> WInt(loc[k + 1])]
               IN ReadStripe(n, par, WInt(loc[Len(loc)]), G)
                  \* RAID-5 arrays need not be readable
                  \cup (IF f.level = 5 THEN {<<>>} ELSE {})

Got(o) == IF o.s = "ok" THEN <<o.v.d>> ELSE <<>>
CheckRead(c, ms, cl, fmt, cap, k) ==
  LET r == c.reads[k]
      o == c.out.v.reads[k]
      \* hit: a read, seek or the like of a member failed meanwhile
      may == Permitted(c, ms, cl, fmt, cap, r[1], r[2]) \cup (IF o.hit THEN {<<>>} ELSE {})
  IN IF o.s \notin {"ok", "err"} THEN Bad(c, <<"read", k, r[1], o.s>>)
     ELSE IF Got(o) \notin may THEN Bad(c, <<"read", k, r[1], "permitted", may, "got", Got(o)>>)
     ELSE IF o.s = "ok" /\ (o.v.n # 512 \/ ~o.v.tail) THEN Bad(c, <<"read", k, r[1], "count or buffer", o.v.n>>)
     ELSE TRUE

\* During a reshape a read is right, for the geometry on the side of the
\* position where the sector is, or refused.
CheckReshape(c, ms, cl, k) ==
  LET r == c.reads[k]
      o == c.out.v.reads[k]
      after == Permitted(c, ms, cl, NewFormat(ms), Capacity(NewFormat(ms)), r[1], r[2])
      before == Permitted(c, ms, cl, Format(ms), Capacity(Format(ms)), r[1], r[2])
      new == InNew(r[1], ms[1].reshape[2])
      may == {<<>>} \cup (IF new THEN after ELSE before)
  IN IF o.s \notin {"ok", "err"} THEN Bad(c, <<"read", k, r[1], o.s>>)
     ELSE IF Got(o) \notin may
     THEN Bad(c, <<IF ~new /\ Got(o) \in after THEN "not-yet-reshaped-read-with-new-geometry" ELSE "reshape read",
                   k, r[1], "permitted", may, "got", Got(o)>>)
     ELSE IF o.s = "ok" /\ (o.v.n # 512 \/ ~o.v.tail) THEN Bad(c, <<"read", k, r[1], "count or buffer", o.v.n>>)
     ELSE TRUE

Check(c) ==
  IF c.out.s = "ok" /\ Reshaping(Members(c.members)) THEN
    LET ms == Members(c.members)
        cl == Claims(ms)
    IN IF c.out.v.count.s \notin {"ok", "err"} THEN Bad(c, c.out.v.count)
       ELSE IF ~OneReshape(ms) \/ ("VH_FOCUS" \in DOMAIN IOEnv /\ IOEnv.VH_FOCUS = "faults") THEN TRUE
       ELSE \A k \in 1..Len(c.reads) : CheckReshape(c, ms, cl, k)
  ELSE
  LET ms == Members(c.members)
      cl == Claims(ms)
      fmt == Format(ms)
      cap == Capacity(fmt)
      co == c.out.v.count
  IN IF c.out.s # "ok" THEN Bad(c, c.out.s)
     ELSE IF co.s = "err" /\ co.hit THEN \A k \in 1..Len(c.reads) : CheckRead(c, ms, cl, fmt, cap, k)
     ELSE IF co.s \notin {"ok", "err"} \/ (IF co.s = "ok" THEN <<co.v>> ELSE <<>>) # cap
     THEN Bad(c, <<"capacity", cap, "got", co>>)
     ELSE \A k \in 1..Len(c.reads) : CheckRead(c, ms, cl, fmt, cap, k)
Next == Judge(Check)
=============================================================================
