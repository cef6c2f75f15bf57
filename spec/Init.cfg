CONSTANTS
  Threads = {1}
  Calls = 4
SPECIFICATION Spec
CONSTRAINT Small
INVARIANTS Nothing OneTable ReadOnce NoBlockLost OneAtATime LockLeft Ready
PROPERTIES EveryCallEnds
