SPECIFICATION TraceSpec
CONSTANT Reg = {0, 1, 2, 3}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
