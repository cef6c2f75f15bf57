CONSTANTS
  PAGE = 4
  KB = 1
  HIDDEN = 0
  PTR = 1
  NP = 40
  CHUNK = 7
  SPP = 7
  LOW = 4
SPECIFICATION Spec
VIEW View
INVARIANTS Contract Sane
CHECK_DEADLOCK FALSE
