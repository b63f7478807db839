CONSTANTS MaxFields = 2 Emit = FALSE
INIT Init
NEXT Next
INVARIANTS LawLayout LawRoundTrip LawPos LawBits LawCut
