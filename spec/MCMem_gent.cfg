SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Members = 3
  Depth = 1
  Emit = TRUE
  Wrap = {FALSE}
  Als = {FALSE, TRUE}
  Ens = {"l"}
  Inis = {2}
