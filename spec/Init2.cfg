CONSTANTS
  Threads = {1, 2}
  Calls = 2
SPECIFICATION Spec
CONSTRAINT Small
INVARIANTS Nothing OneTable ReadOnce NoBlockLost OneAtATime LockLeft Ready
PROPERTIES EveryCallEnds
