SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS OneBodyLaws TwoBodyLaws
CHECK_DEADLOCK FALSE
