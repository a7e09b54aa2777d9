SPECIFICATION Spec
INVARIANTS Consistent PaletteLimits Shared FixedStay Deterministic Gate RoundTrip Faithful OwnersDistinct FreedWasGiven NothingLost Refused
POSTCONDITION Report
CHECK_DEADLOCK FALSE
VIEW View
