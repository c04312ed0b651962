SPECIFICATION Spec
INVARIANT Conforms
INVARIANT Ordered
INVARIANT NoOutputLost
INVARIANT DataKept
CHECK_DEADLOCK FALSE
