CONSTANTS MaxMem = 4 Emit = FALSE
INIT Init
NEXT Next
INVARIANTS LawNumber LawEq
