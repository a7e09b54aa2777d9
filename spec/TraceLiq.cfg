SPECIFICATION Spec
INVARIANT Conforms
ALIAS Where
CHECK_DEADLOCK FALSE
VIEW At
