"""What each property's check runs: TLC models of the specification, and suites
of executions of the code with the trace specification that judges them."""

WIDE = dict(module="MC_Wide")
STRIPES = dict(module="MC_Stripes", scen="stripes.ndjson")

CHECKS = {
    "C01": dict(
        note="TLC shows that the two independent descriptions of the layouts in the specification agree and partition "
             "every stripe (all layouts, up to 7 devices, two rotation periods), and judges the code's location for "
             "every sector of a full rotation (up to 9 devices quick, 20 thorough) and for random 64-bit geometries. "
             "Trusts that the specification's transcription of the kernel's arithmetic is right.",
        models=[WIDE, dict(module="MC_RaidLayout")],
        suites=[dict(suite="layout", trace="Trace_RaidLayout")],
    ),
    "C02": dict(
        note="TLC explores an array of four members (five in the thorough tier) as a state machine of writes and single "
             "faults in every layout, where reads never give anything but the last written data or an error, and judges "
             "the code's reads on arrays taken from that model and on random arrays with faults, all superblock "
             "versions, data offsets, block sizes and 64-bit geometries; and arrays while they are reshaped (one known "
             "finding: sectors not yet reshaped are read through the new geometry). Q is not verified by the tool and not here.",
        models=[dict(module="MC_RaidArray", scen="array.ndjson"), dict(module="MC_RaidLayout"),
                dict(module="MC_RaidReshape", scen="reshape.ndjson")],
        suites=[dict(suite="array", trace="Trace_RaidArray", scen=["array.ndjson", "reshape.ndjson"])],
    ),
    "C03": dict(
        note="TLC shows that merging position tables one by one in every order gives the order-free result of the "
             "specification, for every set of up to 2 members (3 with smaller tables), and judges the seats the code "
             "gives to the members of every set of up to 2 and of random larger sets, in several orders.",
        models=[dict(module="MC_MdAssembly", scen="assembly.ndjson"), dict(module="MC_MdAssembly3")],
        suites=[dict(suite="assemble", trace="Trace_MdAssembly", scen="assembly.ndjson")],
    ),
    "C04": dict(
        note="TLC checks the places of superblocks against an independent statement of the layout rules and judges "
             "which superblock the code found on every device of a model of the search (sizes where places coincide, each "
             "place holding either version, an unknown one, nothing, or failing) and on random devices of many sizes.",
        models=[WIDE, dict(module="MC_MdDiscovery"), dict(module="MC_MdSearch", scen="search.ndjson")],
        suites=[dict(suite="discover", trace="Trace_MdDiscovery", scen="search.ndjson")],
    ),
    "C05": dict(
        note="TLC checks the decoding rules (byte orders agree, fields are recovered from encodings, every superblock a writer "
             "lays out reads as its fields mean, whatever is around them) and judges the code's decoding of each of those and of "
             "random, boundary and flawed superblocks of all versions, field by field.",
        models=[WIDE, dict(module="MC_MdSuperblock"), dict(module="MC_MdFields", scen="fields.ndjson")],
        suites=[dict(suite="decode", trace="Trace_MdSuperblock", scen="fields.ndjson")],
    ),
    "C06": dict(
        note="TLC shows that a reader which sorts members by what each records, in any order, ends with the diagnosis of the "
             "specification, and that there is a disagreement just if two members vary in a respect that concerns it; it judges "
             "every entry of the diagnosis the code gives for each of those sets of members, every set of up to 2 from the "
             "assembly model, and random ones that disagree in any attribute, in several orders.",
        models=[dict(module="MC_MdAssembly", scen="assembly.ndjson"), dict(module="MC_MdDiagnosis", scen="diagnosis.ndjson")],
        suites=[dict(suite="assemble", trace="Trace_MdDiagnosis", scen=["assembly.ndjson", "diagnosis.ndjson"])],
    ),
    "C07": dict(
        note="TLC explores every sequence of seeks, reads, block reads and clones on devices of up to 4 small blocks, "
             "checks the cursor algebra, and replays all of them, plus random histories on devices up to 2^64 bytes, "
             "through the code, judging every outcome in turn against the model.",
        models=[WIDE, dict(module="MC_BlockReader", scen="reader.ndjson"), STRIPES],
        suites=[dict(suite="reader", trace="Trace_BlockReader", scen=["reader.ndjson", "stripes.ndjson"], steps="history")],
    ),
    "C08": dict(
        note="TLC shows that two concrete kinds of device (a shared file offset that block reads move, an own offset in "
             "memory) refine the common specification, and judges histories of reads, seeks, block reads, clones and "
             "truncations on real files, on files behind faked block device ioctls, and in memory, up to 4 TiB sparse.",
        models=[WIDE, dict(module="MC_BlockKinds", scen="kinds.ndjson")],
        suites=[dict(suite="kinds", trace="Trace_BlockKinds", scen="kinds.ndjson", steps="history")],
    ),
    "C09": dict(
        note="TLC explores every superblock of a small filesystem with up to two unusual fields, and shows that every field of "
             "superblocks and descriptors written as their declaration lays them out reads as written (4285 images, which the "
             "code then opens), and judges the opening of random, boundary and flawed superblocks and descriptor tables (all block sizes, "
             "32 and 64-byte descriptors, unsupported features, bad checksums, unreadable places) against the accept "
             "predicate and the field values of the specification; CRC32C is computed in TLA+ and checked against a "
             "bitwise definition and published vectors.",
        models=[WIDE, dict(module="MC_Crc32c"), dict(module="MC_Ext4Open", scen="open.ndjson"),
                dict(module="MC_Ext4Fields", scen="sbfields.ndjson")],
        suites=[dict(suite="open", trace="Trace_Ext4", scen=["open.ndjson", "sbfields.ndjson"], steps="history"),
                dict(suite="fuzz", trace="Trace_Ext4", steps="history", limit=10, focus="open")],
    ),
    "C10": dict(
        note="TLC shows that slots counted one by one are where the arithmetic puts them, that times encoded as Linux does come "
             "back, has the code read every inode of these filesystems, of every single byte and of all times around the "
             "wraps, and judges the metadata of inodes of random contents, sizes, extra sizes and numbers, on filesystems of "
             "random geometry (groups, inode sizes, table positions beyond 2^32), against slot arithmetic and decoding "
             "rules of the specification.",
        models=[WIDE, dict(module="MC_Crc32c"), dict(module="MC_Ext4Inode", scen="inode.ndjson")],
        suites=[dict(suite="inode", trace="Trace_Ext4", scen="inode.ndjson", steps="history"),
                dict(suite="fuzz", trace="Trace_Ext4", steps="history", limit=10, focus="inode")],
    ),
    "C11": dict(
        note="TLC explores every extent tree of up to 3 nodes over a small file, with flaws and holes, shows that a walk of the "
             "tree gives the content a file has by definition, has the code read each of the 5900 files, and "
             "judges every read of histories of reads with odd buffer sizes on files with random extent trees "
             "(depth 0 to 4, unwritten and maximal extents, holes, blocks beyond the device, flaws) against the "
             "content the specification gives the file.",
        models=[WIDE, dict(module="MC_Crc32c"), dict(module="MC_Ext4Tree", scen="tree.ndjson")],
        suites=[dict(suite="files", trace="Trace_Ext4", scen="tree.ndjson", steps="history"),
                dict(suite="fuzz", trace="Trace_Ext4", steps="history", limit=10, focus="read")],
    ),
    "C12": dict(
        note="TLC explores changed bits anywhere in the superblock, a tree block and a directory block, blocks of other files in "
             "their place, and changed identities, seeds and generations, and shows that the specification, by the bytes, trusts "
             "exactly what is unchanged since it was sealed for its file; each is replayed on the code. TLC also judges random "
             "damage, special values, and images without the feature, against CRC32C computed in TLA+.",
        models=[WIDE, dict(module="MC_Crc32c"), dict(module="MC_Ext4Damage", scen="damage.ndjson")],
        suites=[dict(suite="damage", trace="Trace_Ext4", scen="damage.ndjson", steps="history")],
    ),
    "C13": dict(
        note="TLC explores every chain of up to 4 records in a small directory with every flaw of length, shows that stepping "
             "gives the list by definition, has the code list each, and judges every step of listing directories with random entries, unused entries, tails, several blocks, "
             "every flaw of lengths, and unreadable blocks, against the entry chain of the specification.",
        models=[WIDE, dict(module="MC_Crc32c"), dict(module="MC_Ext4Dir", scen="dir.ndjson")],
        suites=[dict(suite="dirs", trace="Trace_Ext4", scen="dir.ndjson", steps="history"),
                dict(suite="fuzz", trace="Trace_Ext4", steps="history", limit=10, focus="list")],
    ),
    "C14": dict(
        note="TLC shows that a walk over any of 5900 small extent trees (cyclic, shared, overlapping, lying about themselves) and "
             "the stepping through any of 1026 chains of directory records end, within a stack of the depth allowed, and "
             "judges that every operation of the code on these, on 2451 superblocks with unusual fields, on random images with "
             "overwritten structures (every field with every special value), and on noise, ends with a "
             "result or an error, takes memory in proportion to the device, and that reading on reaches an end; in the thorough "
             "tier every outcome is also judged for being right by the full specification.",
        models=[WIDE, dict(module="MC_Crc32c"), dict(module="MC_Ext4Tree", scen="tree.ndjson"),
                dict(module="MC_Ext4Dir", scen="dir.ndjson"), dict(module="MC_Ext4Open", scen="open.ndjson")],
        suites=[dict(suite="fuzz", trace="Trace_Ext4Total", scen=["tree.ndjson", "dir.ndjson", "open.ndjson"], limit=10),
                dict(suite="fuzz", trace="Trace_Ext4", steps="history", limit=10, thorough_only=True)],
    ),
    "C15": dict(
        note="TLC shows that handles which only remember how far they got, on one device with one position, give what each would "
             "give alone, in every order (and that they would not if an operation could be interrupted), has the code go "
             "through all orders of 4 operations (5 in the thorough tier) on 5 handles, and judges interleaved histories on many files and directories opened from clones of one filesystem, on every "
             "kind of device (also ones whose clones share a position, and an array), with a separate position for each "
             "handle in the specification; and histories on many readers of one device or array.",
        models=[dict(module="MC_BlockReader", scen="reader.ndjson"), dict(module="MC_Ext4Handles", scen="handles.ndjson"), STRIPES],
        suites=[dict(suite="handles", trace="Trace_Ext4", scen=["handles.ndjson", "stripes.ndjson"], steps="history"),
                dict(suite="reader", trace="Trace_BlockReader", scen=["reader.ndjson", "stripes.ndjson"], steps="history")],
    ),
    "C16": dict(
        note="TLC shows that the command as a process that opens devices and prints makes no call that changes anything, and "
             "judges runs of the real executable (every list of up to 3 devices of 10 kinds from the model, random lists, "
             "names, options and contents) and of the library in a process of its own, behind a preloaded library "
             "which records calls that write, with snapshots of all files before and after.",
        models=[dict(module="MC_Cli", scen="cli.ndjson")],
        suites=[dict(suite="cli", trace="Trace_CliReadOnly", scen="cli.ndjson", cli=True)],
    ),
    "C17": dict(
        note="TLC shows that the command as a process prints what the specification defines and ends, for every list of up to "
             "3 devices (4 in the thorough tier) of 10 kinds, and judges the output and exit status of the real "
             "executable on all of these and on random lists with odd names, repeated names, errors and contents.",
        models=[dict(module="MC_Cli", scen="cli.ndjson")],
        suites=[dict(suite="cli", trace="Trace_Cli", scen="cli.ndjson", cli=True)],
    ),
    "C18": dict(
        note="TLC shows that the sets of states by which it follows handles through failures always contain the true one and "
             "allow no data from anywhere else, has the code go through histories with every fault at every operation, and "
             "judges histories in which reads of the device fail at a chosen call or place, end early, are short or "
             "interrupted, on filesystems, readers and arrays: as it cannot always be seen what a failed operation did "
             "to a position, it follows the set of all states the outcomes allow.",
        models=[dict(module="MC_MdSearch", scen="search.ndjson"), dict(module="MC_BlockReader", scen="reader.ndjson"), dict(module="MC_Ext4Faults", scen="faults.ndjson"), STRIPES],
        suites=[dict(suite="discover", trace="Trace_MdDiscovery", scen="search.ndjson"),
                dict(suite="faults", trace="Trace_Ext4Faulty", scen="faults.ndjson", steps="history"),
                dict(suite="reader", trace="Trace_BlockReader", scen=["reader.ndjson", "stripes.ndjson"], steps="history"),
                dict(suite="array", trace="Trace_RaidArray", focus="faults")],
    ),
    "C19": dict(
        note="TLC checks the laws of order and text on all names of up to 2 bytes of 9 that matter to UTF-8 (16 in the thorough "
             "tier) and longer ones, and judges how the code compares, hashes, converts and shows these names, all "
             "against all, and random ones of up to 255 bytes, in every form they can be held in.",
        models=[dict(module="MC_Names", scen="names.ndjson")],
        suites=[dict(suite="names", trace="Trace_Names", scen="names.ndjson")],
    ),
    "C20": dict(
        note="TLC shows that assembling members in every condition and order (not given, blank, doubled, stale, damaged, "
             "with a device too many) and reading them gives what was written or an error, and exactly what was written if "
             "the oddities are harmless; every such condition is replayed with filesystems as images.  It judges "
             "recovery from end to end: filesystems striped over the members of arrays by the specification's own "
             "placement tables, with superblocks of every version and members in any order, are found, assembled, opened, "
             "listed and read through the code's whole stack, and every outcome is judged by the filesystem's "
             "specification as if there were no array; with missing, shrunk, damaged and stale members no outcome is "
             "wrong and no file differs.",
        models=[STRIPES, dict(module="MC_RaidLayout"), dict(module="MC_Recovery", scen="recovery.ndjson")],
        suites=[dict(suite="recover", trace="Trace_Ext4Faulty", scen=["stripes.ndjson", "recovery.ndjson"], steps="history")],
    ),
}
