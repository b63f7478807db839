CONSTANTS MaxH = 1 Emit = TRUE
INIT Init
NEXT Next
INVARIANTS LawEmit
CONSTRAINT Bound
