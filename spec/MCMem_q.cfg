SPECIFICATION Spec
INVARIANT Laws
PROPERTY LawFrame
CHECK_DEADLOCK FALSE
CONSTANTS
  Members = 2
  Depth = 1
  Emit = FALSE
  Wrap = {FALSE}
  Als = {TRUE}
  Ens = {"l", "b"}
  Inis = {2}
