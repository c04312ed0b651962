SPECIFICATION Spec
INVARIANTS ConvLaw MatLaw EinLaw ScaleLaw FreeLaw TotalLaw
CHECK_DEADLOCK FALSE
