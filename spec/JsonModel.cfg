SPECIFICATION Spec
CONSTANTS
  Chars = {0, 1, 8, 9, 10, 11, 12, 13, 31, 32, 34, 39, 47, 92, 97, 127, 128, 255, 2048, 55295, 57344, 65533, 65535, 65536, 66560, 128512, 1114111}
  Depth = 2
INVARIANTS RoundTrip EscRound
CHECK_DEADLOCK FALSE
