SPECIFICATION Spec
CONSTANTS Inputs = {"x", "y"}
CONSTANTS MaxCalls = 4
INVARIANTS ProfileNeedsShapes ShapesNeedInputs OutputsOnce ProfileIsOfTheInputs
PROPERTIES RefusedAfterFailure Recovers OutputsOnlyGrow
CHECK_DEADLOCK FALSE
