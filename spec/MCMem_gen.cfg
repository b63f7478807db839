SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Members = 2
  Depth = 1
  Emit = TRUE
  Wrap = {FALSE, TRUE}
  Als = {FALSE, TRUE}
  Ens = {"l"}
  Inis = {2}
