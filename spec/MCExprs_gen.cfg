CONSTANTS MaxTok = 7 MaxOpnd = 3 Emit = TRUE Full = TRUE Ops = {"+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|"}
INIT Init
NEXT Next
