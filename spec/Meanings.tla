------------------------------ MODULE Meanings ------------------------------
(* What the bits and numbers which ext4 records are called, after Linux's      *)
(* fs/ext4/ext4.h, md_p.h and the kernel's documentation.  A name is judged    *)
(* only if the implementation knows it: names may be added, removed and        *)
(* changed, but none of these may stand for another bit or number.             *)
EXTENDS Wide, FiniteSets

SetBit(w, k) == (WD(w, (k \div 8) + 1) \div 2^(k % 8)) % 2 = 1

\* The names of bits 0, 1, ...; "" has none
FlagNames(t) ==
  CASE t = "state" -> <<"CLEANLY_UNMOUNTED", "ERRORS_DETECTED", "ORPHANS_BEING_RECOVERED">>
    [] t = "flags" -> <<"SIGNED_DIRECTORY_HASH", "UNSIGNED_DIRECTORY_HASH", "TEST_FILESYSTEM">>
    [] t = "mount" -> <<"PRINT_DEBUGGING_INFO", "NEW_FILES_INHERIT_DIRECTORY_GROUP_ID",
         "ENABLE_USERSPACE_EXTENDED_ATTRIBUTES", "ENABLE_POSIX_ACLS", "DISABLE_16_BIT_USER_IDS",
         "COMMIT_ALL_DATA_AND_METADATA_TO_JOURNAL", "FLUSH_ALL_DATA_BEFORE_COMMITTING_METADATA", "",
         "DISABLE_WRITE_FLUSHES", "TRACK_METADATA_BLOCKS", "ENABLE_DISCARD", "DISABLE_DELAYED_ALLOCATION">>
    [] t = "compat" -> <<"DIRECTORY_PREALLOCATION", "MAGIC_INODES", "HAS_JOURNAL", "SUPPORTS_EXTENDED_ATTRIBUTES",
         "HAS_RESERVED_GDT_BLOCKS", "HAS_DIRECTORY_INDICES", "LAZY_BG", "EXCLUDE_INODE", "EXCLUDE_BITMAP",
         "SPARSE_SUPERBLOCK_V2", "SUPPORTS_FAST_COMMITS", "", "ORPHAN_PRESENT">>
    [] t = "incompat" -> <<"COMPRESSION", "DIRECTORY_ENTRIES_RECORD_FILE_TYPE", "NEEDS_RECOVERY",
         "HAS_SEPARATE_JOURNAL_DEVICE", "HAS_META_BLOCK_GROUPS", "", "FILES_USE_EXTENTS", "IS_64_BIT",
         "MULTIPLE_MOUNT_PROTECTION", "FLEXIBLE_BLOCK_GROUPS", "INODES_STORE_LARGE_EXTENDED_ATTRIBUTE_VALUES", "",
         "DATA_IN_DIRECTORY_ENTRY", "METADATA_CHECKSUM_SEED", "LARGE_DIRECTORIES", "DATA_IN_INODE",
         "HAS_ENCRYPTED_INODES">>
    [] t = "ro_compat" -> <<"SPARSE_SUPERBLOCKS", "CONTAINS_LARGE_FILES", "BTREE_DIR", "CONTAINS_HUGE_FILES",
         "GROUP_DESCRIPTORS_HAVE_CHECKSUMS", "UNLIMITED_SUBDIRECTORIES", "CONTAINS_LARGE_INODES", "HAS_SNAPSHOT",
         "QUOTA", "BIGALLOC", "METADATA_CHECKSUMS", "REPLICA", "READ_ONLY", "PROJECT_QUOTA", "", "VERITY",
         "ORPHAN_PRESENT">>
    [] t = "group" -> <<"INODE_NOT_IN_USE", "BLOCK_BITMAP_NOT_IN_USE", "INODE_TABLE_ZEROED">>
    [] t = "inode" -> <<"SECURE_DELETE", "UNDELETE", "COMPRESSED", "SYNCHRONOUS_UPDATES", "IMMUTABLE", "APPEND_ONLY",
         "NO_DUMP", "NO_UPDATE_ACCESS_TIME", "DIRTY", "COMPRESSED_CLUSTERS", "NO_COMPRESS", "ENCRYPTED",
         "HASH_INDEXED_DIRECTORY", "AFS_DIRECTORY", "JOURNAL_DATA", "NO_TAIL_MERGE", "DIRECTORY_SYNC",
         "TOP_DIRECTORY", "HUGE_FILE", "HAS_EXTENTS", "VERITY_PROTECTED", "LARGE_EXTENDED_ATTRIBUTES", "", "", "",
         "DIRECT_ACCESS", "", "", "HAS_INLINE_DATA", "INHERIT_PROJECT_ID", "CASE_FOLDED", "RESERVED">>
    [] t = "perm" -> <<"OTHER_EXECUTE", "OTHER_WRITE", "OTHER_READ", "GROUP_EXECUTE", "GROUP_WRITE", "GROUP_READ",
         "USER_EXECUTE", "USER_WRITE", "USER_READ", "STICKY", "SET_GROUP_ID", "SET_USER_ID">>

\* The names of the numbers 0, 1, ...
NumberNames(t) ==
  CASE t = "errors" -> <<"", "Continue", "RemountReadOnly", "Panic">>
    [] t = "os" -> <<"Linux", "Hurd", "Masix", "FreeBsd", "Lites">>
    [] t = "hash" -> <<"Legacy", "HalfMd4", "Tea", "LegacyUnsigned", "HalfMd4Unsigned", "TeaUnsigned">>
    [] t = "encryption" -> <<"Invalid", "Aes256Xts", "Aes256Gcm", "Aes256Cbc">>
    [] t = "type" -> <<"", "Fifo", "CharacterDevice", "", "Directory", "", "BlockDevice", "", "RegularFile", "",
         "SymbolicLink", "", "Socket">>
    [] t = "entry" -> <<"", "RegularFile", "Directory", "CharacterDevice", "BlockDevice", "Fifo", "Socket",
         "SymbolicLink">>

Names(q) == {q[k] : k \in 1..Len(q)} \ {""}
\* set and unset: the known names which the value has and has not
FlagsOk(t, value, set, unset) ==
  LET q == FlagNames(t)
      S == {set[k] : k \in 1..Len(set)}
      U == {unset[k] : k \in 1..Len(unset)}
  IN /\ S \cap U = {}
     /\ \A k \in 1..Len(q) :
          q[k] # "" => /\ q[k] \in S => SetBit(value, k - 1)
                       /\ q[k] \in U => ~SetBit(value, k - 1)
\* text: what the value is shown as, without its number
NumberOk(t, value, text) ==
  LET q == NumberNames(t)
      mine == IF WFitsInt(value) THEN IF WInt(value) < Len(q) THEN q[WInt(value) + 1] ELSE "" ELSE ""
  IN IF mine = "" THEN text \notin Names(q) ELSE text \notin (Names(q) \cup {"Unknown"}) \ {mine}

MeaningOk(m) ==
  IF m.k = "flags" THEN FlagsOk(m.t, m.v, m.set, m.unset) ELSE NumberOk(m.t, m.v, m.text)
MeaningsOk(o) ==
  IF "means" \in DOMAIN o THEN \A k \in 1..Len(o.means) : MeaningOk(o.means[k]) ELSE TRUE

\* The tables name no two things alike
ASSUME \A t \in {"state", "flags", "mount", "compat", "incompat", "ro_compat", "group", "inode", "perm"} :
  LET q == FlagNames(t) IN Cardinality(Names(q)) = Cardinality({k \in 1..Len(q) : q[k] # ""})
ASSUME \A t \in {"errors", "os", "hash", "encryption", "type", "entry"} :
  LET q == NumberNames(t) IN Cardinality(Names(q)) = Cardinality({k \in 1..Len(q) : q[k] # ""})
=============================================================================
