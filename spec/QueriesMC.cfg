SPECIFICATION Spec
CONSTANTS
 N = 3
 EMax = 1
 Props = 2
INVARIANTS Laws Sorts Harmless
CHECK_DEADLOCK FALSE
