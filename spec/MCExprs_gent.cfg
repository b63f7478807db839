CONSTANTS MaxTok = 8 MaxOpnd = 4 Emit = TRUE Full = FALSE Ops = {"+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|"}
INIT Init
NEXT Next
