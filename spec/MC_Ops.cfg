SPECIFICATION Spec
INVARIANTS BcLaws SliceLaw WinLaw SameLaw ConvTLaw PermLaw ReshapeLaw SplitLaw AxesLaw PadLaw RangeLaw
CHECK_DEADLOCK FALSE
