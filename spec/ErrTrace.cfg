SPECIFICATION TraceSpec
CONSTANT Reg = {0, 1, 2}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
