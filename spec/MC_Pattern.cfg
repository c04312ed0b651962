SPECIFICATION Spec
INVARIANT SelfMatch
INVARIANT Paths
INVARIANT InplaceNarrower
INVARIANT InplaceSafe
CHECK_DEADLOCK FALSE
