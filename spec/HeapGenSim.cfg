INIT Init
NEXT NextSim
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
