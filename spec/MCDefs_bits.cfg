CONSTANTS MaxFields = 2 Emit = FALSE
INIT Init
NEXT Next
INVARIANT LawBits
