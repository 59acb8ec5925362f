SPECIFICATION Spec
CONSTANTS MaxB = 2 MaxQ = 2 MaxN = 5
INVARIANTS TraceLaw PhononTrace Hermitian ChargeBalance PhononCharge PauliLimit
CHECK_DEADLOCK FALSE
