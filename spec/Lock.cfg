CONSTANTS
  Threads = {1, 2}
  Calls = 2
SPECIFICATION Spec
INVARIANTS OneAtATime OnlyHolderTouches TableOpenWhenTouched ClosedWhenFree NotHeldBetweenCalls CountsBalanced Recognised
PROPERTY EveryCallEnds
