CONSTANTS MaxMem = 4 Emit = TRUE
INIT Init
NEXT Next
