SPECIFICATION Spec
CONSTANT Numbers <- NumbersDef
INVARIANTS RoundTrip Auto Beyond
CHECK_DEADLOCK FALSE
