SPECIFICATION Spec
INVARIANT Laws
PROPERTIES LawApart LawOrder
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxF = 3
  Steps = 3
