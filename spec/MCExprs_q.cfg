CONSTANTS MaxTok = 6 MaxOpnd = 3 Emit = FALSE Full = TRUE Ops = {"+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|"}
INIT Init
NEXT Next
INVARIANTS Correct NeverStuck PrefixWF
