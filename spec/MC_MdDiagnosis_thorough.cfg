SPECIFICATION Spec
INVARIANTS Sorted NamedOnce Because
CHECK_DEADLOCK FALSE
CONSTANTS
 Alone = {"uuid", "tail", "name", "level", "layout", "size", "chunk", "disks", "reshape", "events", "roles", "count", "index", "offset", "place", "order"}
 Paired = {"uuid", "tail", "name", "level", "layout", "size", "chunk", "disks", "reshape", "events", "roles", "count", "index", "offset", "place", "order"}
