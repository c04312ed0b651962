SPECIFICATION Spec
INVARIANT ResultsConform
INVARIANT WellFormed
INVARIANT InterfaceKept
INVARIANT SplitIsPartition
INVARIANT PartsFit
CHECK_DEADLOCK FALSE
