SPECIFICATION Spec
CONSTANTS MaxLen = 6
          MaxUnits = 5
INVARIANTS CharRoundTrip Progress Same Resync Backward Units16
CHECK_DEADLOCK FALSE
