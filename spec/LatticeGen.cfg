SPECIFICATION Spec
INVARIANTS Valid Granted_ Emit
CHECK_DEADLOCK FALSE
POSTCONDITION Complete
