SPECIFICATION Spec
CONSTANT Sizes = {2, 3}
INVARIANT OnlySupported
CHECK_DEADLOCK FALSE
