SPECIFICATION ReadSpec
CONSTANT W = 8
VIEW View
INVARIANT Sane
PROPERTY Forward
CHECK_DEADLOCK FALSE
