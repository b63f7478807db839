CONSTANTS MaxH = 1 Emit = FALSE
INIT Init
NEXT Next
INVARIANTS LawInverse LawMirror LawLeb LawReread
