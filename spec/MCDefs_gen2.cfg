CONSTANTS MaxFields = 2 Emit = TRUE
INIT Init
NEXT Next
