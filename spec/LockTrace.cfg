SPECIFICATION Spec
CONSTANTS
  PAGE = 4096
  KB = 4
  HIDDEN = 4
  PTR = 8
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
