INIT Init
NEXT Next
INVARIANTS RoundTrip SameInBothOrders NotVersion1
CHECK_DEADLOCK FALSE
