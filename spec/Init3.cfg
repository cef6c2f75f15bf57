CONSTANTS
  Threads = {1, 2, 3}
  Calls = 1
SPECIFICATION Spec
CONSTRAINT Small
INVARIANTS Nothing OneTable ReadOnce NoBlockLost OneAtATime LockLeft Ready
PROPERTIES EveryCallEnds
