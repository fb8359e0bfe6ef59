SPECIFICATION MSpec
CONSTANT Reg = {0, 1}
INVARIANTS Parts Injective Kept
CHECK_DEADLOCK FALSE
