SPECIFICATION Spec
INVARIANT Laws
PROPERTIES LawApart LawOrder
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxF = 2
  Steps = 2
