CONSTANTS MaxFields = 3 Emit = TRUE
INIT Init
NEXT Next
