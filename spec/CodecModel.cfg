SPECIFICATION Spec
CONSTANTS MaxLen = 4
          MaxUnits = 4
INVARIANTS CharRoundTrip Progress Same Resync Backward Units16
CHECK_DEADLOCK FALSE
