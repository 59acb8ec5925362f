SPECIFICATION Spec
CONSTANTS
 N = 3
 EMax = 2
INVARIANTS Law SaneBoth EnabledAlike
CHECK_DEADLOCK FALSE
