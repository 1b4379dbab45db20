-------------------------------- MODULE Cli --------------------------------
(* What the command prints for a list of devices.  A device is                 *)
(* [open |-> number of the error met in opening it or finding out its size, 0: *)
(* none; m |-> the member it then is (see MdAssembly)].  The list gives the    *)
(* number of the device for each name on the command line, which may repeat.   *)
EXTENDS MdDiagnosis

\* Positions in the list of those which cannot be opened, in order
FailedAt(devs, list) == SelectSeq([k \in 1..Len(list) |-> k], LAMBDA k : devs[list[k]].open # 0)

\* One line for each
Lines(devs, list) ==
  LET f == FailedAt(devs, list) IN
  SubSeq([k \in 1..Len(f) |-> [d |-> list[f[k]], e |-> devs[list[f[k]]].open]], 1, Len(f))

\* The members, if all can be opened
Opened(devs, list) == SubSeq([k \in 1..Len(list) |-> devs[list[k]].m], 1, Len(list))

\* Who is in a group, by name: how often each device is named in it
Bag(seq, n) == [d \in 1..n |-> Cardinality({k \in 1..Len(seq) : seq[k] = d})]
BagOf(ids, list, n) == [d \in 1..n |-> Cardinality({k \in ids : list[k] = d})]

-----------------------------------------------------------------------------
(* Calls which can change a device.  The command may make none of them.        *)
\* BLKROSET, BLKRRPART, BLKFLSBUF, BLKRASET, BLKFRASET, BLKSECTSET, BLKPG,
\* BLKDISCARD, BLKSECDISCARD, BLKZEROOUT, BLKBSZSET
WritingIoctls == {"125d", "125f", "1261", "1262", "1264", "1266", "1269", "1277", "127d", "127f", "40081271"}
=============================================================================
