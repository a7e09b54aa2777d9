SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
INVARIANT Done
CHECK_DEADLOCK FALSE
