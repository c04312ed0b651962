SPECIFICATION Spec
INVARIANTS TotalsAreSums DedupCountsOnce ExclusionIsLocal
CHECK_DEADLOCK FALSE
