#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=hook)))


prop("C01", "RAID-5 and RAID-6 sectors are located where Linux md stores them",
     "For every supported RAID-5 and RAID-6 layout, device count, chunk size and sector number, the data device, "
     "parity device(s) and sector within the members are those Linux md uses, so distinct array sectors never share a "
     "place and data never falls on parity. Layout codes Linux does not define are treated as unsupported, and a "
     "geometry which cannot exist (no chunk size, too few devices) yields no location instead of a wrong one.",
     ["inputs", "configurations"],
     "all levels, layout codes, device counts, chunk sizes and 64-bit sector numbers",
     "No existing test touches the RAID algorithms at all; the space of layouts, device counts and stripes cannot be "
     "sampled meaningfully by a few examples because each layout rotates with its own period.",
     ["src/md/raid5/algorithm.rs", "src/md/raid6/algorithm.rs", "src/md/algorithm.rs", "src/md/units/chunk_number.rs",
      "src/md/units/sector_number.rs"],
     [("compute_sector for both levels", "src/md/raid6/algorithm.rs"),
      ("layout codes", "src/md/raid5/algorithm.rs")],
     observe=["sector location computation", "reading array sectors"],
     hook="MdAlgorithm is private; src/verif.rs exposes it")

prop("C02", "A sector read from an array is the stored data or an error, never wrong data",
     "Reading a sector of an assembled RAID-6 array returns exactly the bytes stored for it on the data member, at that "
     "member's own data offset, for any contents in which the stripe's XOR parity is consistent with the data. If a "
     "member of the stripe is missing, unreadable or has no room for the sector, if that parity disagrees in any byte, "
     "if the sector is past the array's capacity or the buffer is too small, the read fails; the capacity is the data "
     "members times the sectors per device.",
     ["inputs", "configurations", "fault_sequences"],
     "all layouts, device counts, data offsets, member contents, corruptions, missing members, sector numbers and "
     "buffer sizes",
     "There is no test of array reads; silent corruption shows only for particular contents, offsets, stripe positions "
     "and fault placements.",
     ["src/md/array.rs", "src/md/raid6/algorithm.rs", "src/md/format.rs"],
     [("parity check while reading", "src/md/raid6/algorithm.rs"), ("member lookup and data offset", "src/md/array.rs"),
      ("capacity", "src/md/format.rs")],
     observe=["block reads of the array", "block count of the array"])

prop("C03", "Members are assembled into the positions their superblocks record",
     "When members are assembled, each given device appears exactly once: active at the position which the merged "
     "position table gives for its own index, or inactive. A device without a usable superblock or position, and every "
     "one of several devices which claim the same position, is inactive, and contradictory tables or a device without a superblock leave no "
     "device active; spare, faulty or unused entries of one table never hide the position recorded by another. The outcome "
     "does not depend on the order in which the devices are given.",
     ["inputs", "configurations"],
     "all sets of members, their indices and position tables, in every order",
     "There is no test of assembly; conflicts and order effects only appear for particular combinations of three or "
     "more members.",
     ["src/md/array.rs", "src/md/superblock/role.rs", "src/ext/multi_map.rs"],
     [("position table merge and device partition", "src/md/array.rs"),
      ("role classification", "src/md/superblock/role.rs")],
     observe=["which members are active at which position"],
     hook="verif_assembly lists active and inactive members")

prop("C04", "The md superblock of a device is found wherever its version stores it",
     "A device's superblock is found at each location Linux uses: 1.2 at 4 KiB, 1.1 at the start, 1.0 near the end, "
     "0.90 in the last 64 KiB-aligned 64 KiB, in that order of preference, and only if its magic and version fit. A "
     "device under 12 KiB is reported as too small, a readable device with none of them as missing, and a location "
     "which cannot be read or lies outside the device is passed over in favour of the next.",
     ["inputs", "configurations", "fault_sequences"],
     "all device sizes, block sizes, sets of superblock copies, damaged copies and unreadable regions",
     "No test opens a device: existing tests only decode superblock bytes. Location arithmetic depends on the exact "
     "device size.",
     ["src/md/device/device.rs", "src/md/superblock/version_1/superblock.rs", "src/md/superblock/version_0/superblock.rs"],
     [("probing order and offsets", "src/md/device/device.rs"), ("validity", "src/md/superblock/version_0/superblock.rs")],
     observe=["the superblock, too-small or missing state of an opened device"])

prop("C05", "Every md superblock field is decoded to its meaning",
     "Array identity, name, level, layout, member size and chunk size in sectors, device count, data offset, own index, "
     "position table, event count, reshape status and (for 1.x) the places of the bitmap or partial parity log and how far recovery or the journal came reported for a superblock are those recorded by its bytes, for "
     "versions 0.90 (both byte orders, with the same result), 0.91 and 1.x. A version 0 superblock is accepted exactly "
     "if its magic is right in one byte order, its major version is 0 and its recorded members' positions are valid; a "
     "version 1 superblock if its magic and major version are right.",
     ["inputs"],
     "all superblock contents in all versions and byte orders",
     "The unit tests decode a few fixed superblocks and compare raw getters; boundary values, the two byte orders "
     "against each other, and unit conversions are not covered.",
     ["src/md/superblock/version_0/superblock.rs", "src/md/superblock/version_0/big_endian/superblock.rs",
      "src/md/superblock/version_0/little_endian/superblock.rs", "src/md/superblock/version_1/superblock.rs",
      "src/md/superblock/array_uuid.rs", "src/md/superblock/role.rs", "src/md/format.rs"],
     [("layouts and accessors", "src/md/superblock"), ("roles", "src/md/superblock/role.rs")],
     observe=["superblock accessors"])

prop("C06", "The diagnosis names exactly the disagreements between the members",
     "For any set of devices, the diagnosis reports a problem for an attribute (array identity, name, algorithm, size, "
     "chunk size, device count, reshape, event count, position table) exactly when the members' superblocks disagree on "
     "it, and then groups every member under its own value; shared indices are reported with exactly the members that "
     "share them, and too-small devices and devices without a superblock are listed completely. The diagnosis does not "
     "depend on the order of the devices.",
     ["inputs", "configurations"],
     "all sets of devices and superblock contents, in every order",
     "The diagnosis has no tests; it is a function of every combination of member attributes.",
     ["src/md/definition.rs", "src/md/diagnosis/diagnosis.rs", "src/ext/multi_map.rs", "src/md/device/id.rs"],
     [("one function per problem", "src/md/definition.rs"), ("grouping", "src/ext/multi_map.rs")],
     observe=["Diagnosis"])

prop("C07", "Byte reads over a block device follow its contents and the cursor",
     "After any sequence of seeks, reads, block reads and clones, a byte reader over a block device returns exactly the "
     "device's bytes at its cursor, makes progress before the end of the device, returns nothing at or after the end, "
     "and advances the cursor by what it returned. Seeks relative to start, current position and end give the "
     "arithmetic result or fail leaving the cursor unchanged, and a clone has its own cursor starting at the same place.",
     ["histories", "inputs"],
     "all histories of operations, buffer sizes, block sizes and device sizes",
     "The unit tests run eight fixed sequences on one device with 32-byte blocks; boundary positions, zero-length "
     "buffers, seeks past the end and clones are not covered.",
     ["src/block_device/reader.rs", "src/block_device/block_count.rs", "src/block_device/block_number.rs"],
     [("cursor as block and byte position", "src/block_device/reader.rs")],
     state=[("cursor", "block and byte position of the next read", "src/block_device/reader.rs")],
     observe=["Read, Seek and block reads of the reader"])

prop("C08", "Every kind of block device serves exactly the bytes it wraps",
     "A file-backed, native or in-memory block device with the same contents gives the same block count, block reads, "
     "byte reads and in-range seeks. Reading a block that is not wholly inside the device or into too small a buffer "
     "fails, a successful block read returns the block's size and touches nothing beyond it in the buffer, and block "
     "reads of any block number never panic.",
     ["inputs", "histories"],
     "all contents, sizes which are not a multiple of the block size, block sizes, block numbers, buffer sizes and "
     "histories",
     "Only the in-memory device is exercised, and only indirectly with in-range block numbers and exact buffers.",
     ["src/block_device/file.rs", "src/block_device/native.rs", "src/block_device/in_memory.rs",
      "src/block_device/internal.rs", "src/ioctl/blk.rs"],
     [("positioned block reads", "src/block_device/internal.rs"), ("ioctl sizes", "src/ioctl/blk.rs")],
     observe=["block count, block reads, byte reads, seeks"])

prop("C09", "An ext4 filesystem is opened exactly when its metadata can be trusted",
     "Opening succeeds for a device whose superblock has the right magic, a correct checksum where checksums are "
     "enabled and only supported features and sizes, and whose group descriptors can be read; the superblock fields and "
     "group descriptors it then uses are those recorded on disk, for 32- and 64-byte descriptors and every block size. "
     "Otherwise opening fails with an error.",
     ["inputs", "configurations"],
     "all superblock contents, feature combinations, block sizes, descriptor sizes, group counts and corruptions",
     "The tests decode one superblock from one image; unsupported features, corrupt fields and other geometries are "
     "not exercised.",
     ["src/ext4/fs.rs", "src/ext4/superblock/superblock.rs", "src/ext4/block_group/descriptor.rs", "src/ext4/crc.rs"],
     [("superblock validation", "src/ext4/superblock/superblock.rs"), ("group descriptor reading", "src/ext4/fs.rs")],
     observe=["opening a filesystem"], hook="superblock and group descriptors exposed by verif accessors")

prop("C10", "Every inode is found in its table slot and decoded to its meaning",
     "The metadata reported for an inode number is that of its slot in the inode table of its group: type, permissions, "
     "owner, 64-bit size, link count and times with sub-second and post-2038 extension, for every inode size and extra "
     "size. Inode numbers that do not exist, and slots that cannot be read, give an error.",
     ["inputs", "configurations"],
     "all inode numbers, inode sizes, extra sizes, group geometries and inode contents",
     "Tests read a handful of inodes of one image with 256-byte inodes in one group.",
     ["src/ext4/fs.rs", "src/ext4/inode/inode.rs", "src/ext4/inode/time.rs", "src/ext4/inode/file_mode.rs",
      "src/ext4/units/inode_number.rs"],
     [("slot arithmetic", "src/ext4/fs.rs"), ("field decoding", "src/ext4/inode/inode.rs"),
      ("time extension", "src/ext4/inode/time.rs")],
     observe=["inode metadata"], hook="verif_read_inode reads an inode by number")

prop("C11", "File reads return exactly the recorded content, then end of file",
     "Reading a regular file from start to end, with any buffer sizes, returns its recorded number of bytes, each from "
     "the block its extent tree maps it to, unwritten extents as zeros, and then end of file; the length never exceeds "
     "the recorded size. A file whose tree is invalid, or which maps a block outside the device, gives an error at that "
     "place, and never another block's data. Holes, and blocks mapped past the end, are read as zeros and ignored, or "
     "refused with an error, but never anything else.",
     ["inputs", "histories"],
     "all extent trees (depth, fan-out, lengths, unwritten extents, physical placement), sizes, block sizes and "
     "sequences of read sizes",
     "Tests read a few small files from one image; multi-level trees, unwritten extents, maximum extent lengths and odd "
     "read sizes are not covered.",
     ["src/ext4/file.rs", "src/ext4/extent/tree.rs", "src/ext4/extent/extent.rs", "src/ext4/extent/index.rs", "src/ext4/fs.rs"],
     [("tree iteration", "src/ext4/extent/tree.rs"), ("block and byte position", "src/ext4/file.rs")],
     observe=["reads of an opened regular file"])

prop("C12", "Damaged checksummed metadata is reported, not used",
     "With metadata checksums enabled, any change to the superblock, to an extent tree block or to a directory block "
     "which its checksum covers makes the operation that needs it fail, and an undamaged one is accepted, whatever the "
     "filesystem's identity, checksum seed, inode number and generation, block size and number of entries. Without the "
     "feature, the checksums have no influence.",
     ["inputs", "fault_sequences"],
     "all images, damage at every byte of every checksummed structure, both with and without a recorded checksum seed",
     "Tests only read an undamaged image.",
     ["src/ext4/superblock/superblock.rs", "src/ext4/extent/tree.rs", "src/ext4/directory/block.rs", "src/ext4/crc.rs"],
     [("CRC32C of superblock, extent node, directory block", "src/ext4/crc.rs")],
     observe=["open, directory listing, file reads"])

prop("C13", "A directory listing is exactly the live entries, in order",
     "Iterating a directory yields each entry in use, in on-disk order across all of the directory's blocks, with its "
     "recorded inode, type and name of any length and bytes, and nothing else: unused entries and checksum tails are "
     "skipped. A damaged or unreadable block is reported as one error and the entries of the other blocks are still "
     "listed; entries that overrun their block end that block's listing.",
     ["inputs", "fault_sequences"],
     "all directory contents, block counts, entry lengths, names, unused entries and damage",
     "Tests list small directories of one image, without unused entries, long names, several blocks or damage.",
     ["src/ext4/directory/directory.rs", "src/ext4/directory/block.rs", "src/ext4/directory/dir_entry.rs",
      "src/ext4/directory/file_type.rs"],
     [("block iteration", "src/ext4/directory/directory.rs"), ("entry parsing", "src/ext4/directory/block.rs")],
     observe=["directory iteration"])

prop("C14", "No filesystem image can make recovery panic, hang or exhaust memory",
     "Whatever bytes a device holds, opening it as ext4, listing its directories, opening entries and reading files "
     "always ends, in bounded time and memory, with data or an error; it never panics, loops forever or attempts an "
     "absurd allocation.",
     ["inputs"],
     "all images: arbitrary, mutated and adversarial superblocks, descriptors, inodes, extent trees and directories",
     "Tests use one intact image; a recovery tool is run on damaged disks.",
     ["src/ext4/fs.rs", "src/ext4/extent/tree.rs", "src/ext4/directory/block.rs", "src/ext4/inode/inode.rs",
      "src/ext4/superblock/superblock.rs"],
     [("validation before use", "src/ext4/fs.rs"), ("bounded tree depth and entries", "src/ext4/extent/tree.rs")],
     observe=["every public operation on a filesystem"])

prop("C15", "Handles on one device or filesystem do not disturb each other",
     "Any number of readers, files, directories and iterators obtained from the same array or filesystem can be used in "
     "any interleaving, each giving the results it would give if used alone, and a clone continues from its origin's "
     "position independently.",
     ["histories", "schedules"],
     "all interleavings of operations on several handles",
     "Tests use one handle at a time.",
     ["src/ext4/fs.rs", "src/ext4/file.rs", "src/ext4/directory/directory.rs", "src/md/array.rs", "src/block_device/reader.rs"],
     [("a private position per handle over a cloned device", "src/ext4/file.rs")],
     observe=["interleaved reads, listings and clones"])

prop("C16", "The tool never modifies the devices it examines",
     "Whatever devices, files or options are given, examining them opens them without write access and leaves every "
     "byte of them, and the files around them, unchanged.",
     ["inputs", "configurations"],
     "all command lines and device contents, good and damaged",
     "No test runs the tool; a recovery tool that writes to a damaged array destroys evidence.",
     ["src/main.rs", "src/block_device/native.rs", "src/block_device/file.rs", "src/md/device/device.rs"],
     [("read-only open", "src/block_device/native.rs")],
     observe=["open flags, write calls and contents before and after a run of the executable"])

prop("C17", "The command reports every unopenable device, or else the diagnosis",
     "If any named device cannot be opened the command prints one line per such device, naming it and its error in the "
     "order given, and no diagnosis; otherwise it prints the diagnosis of exactly the named devices, each under the "
     "name it was given. It ends normally either way, for any number of devices.",
     ["inputs", "configurations"],
     "all lists of good, missing, unreadable and duplicate device names, and device contents",
     "No test runs the command.",
     ["src/main.rs", "src/md/device/device.rs", "src/md/device/id.rs", "src/md/definition.rs"],
     [("partition of results", "src/main.rs")],
     observe=["standard output and exit status of the executable"])

prop("C18", "A device read error surfaces as an error, never as data or a premature end",
     "If the underlying device fails, is truncated, returns fewer bytes than asked or is interrupted at any point of any "
     "operation, the operation either returns the right result or an error; it never returns wrong bytes, a shortened "
     "file or an incomplete listing as if complete. Operations on parts that can be read still give the right result "
     "afterwards.",
     ["fault_sequences", "histories"],
     "all placements of read errors, short reads, interruptions and truncation in all operations",
     "No test injects faults.",
     ["src/ext4/fs.rs", "src/ext4/file.rs", "src/ext4/directory/directory.rs", "src/md/array.rs",
      "src/md/device/device.rs", "src/block_device/internal.rs", "src/block_device/reader.rs"],
     [("error propagation", "src/ext4/file.rs"), ("exact reads", "src/block_device/internal.rs")],
     observe=["results of operations on a faulty device"])

prop("C19", "Names and identifiers compare by content, consistently",
     "Names of any bytes and length compare, order and match by their bytes: equality, ordering and hashing agree with "
     "each other, ordering is total, and a name displays as its text. A name is looked up and compared the same however "
     "it is stored.",
     ["inputs"],
     "all pairs and triples of names, including prefixes, empty, non-UTF-8 and maximal ones",
     "Tests compare a few short names for equality only.",
     ["src/ext4/string.rs"],
     [("comparison of byte strings", "src/ext4/string.rs")],
     observe=["comparison, ordering, hashing and display of names"])

prop("C20", "A filesystem on an array is recovered exactly as written, or an error is given",
     "Opening the ext4 filesystem on an assembled RAID-6 array and listing and reading it gives the same directory tree "
     "and contents as on the plain device it was striped from, for every layout, chunk size, member order and data "
     "offset. With a missing or corrupt member every result is still either the same or an error.",
     ["inputs", "configurations", "fault_sequences"],
     "all layouts, geometries, images and single-member faults",
     "No test combines the array and filesystem layers.",
     ["src/md/array.rs", "src/ext4/fs.rs", "src/block_device/reader.rs"],
     [("array as a block device under the filesystem", "src/md/array.rs")],
     observe=["directory tree and file contents through the array"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
