SPECIFICATION Spec
INVARIANT Laws
PROPERTY LawFrame
CHECK_DEADLOCK FALSE
CONSTANTS
  Members = 2
  Depth = 2
  Emit = FALSE
  Wrap = {FALSE, TRUE}
  Als = {FALSE, TRUE}
  Ens = {"l", "b"}
  Inis = {1, 2}
