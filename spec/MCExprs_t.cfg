CONSTANTS MaxTok = 8 MaxOpnd = 4 Emit = FALSE Full = TRUE Ops = {"+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|"}
INIT Init
NEXT Next
INVARIANTS Correct NeverStuck PrefixWF
