SPECIFICATION Spec
INVARIANT NoDangling
INVARIANT NoOrphans
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
