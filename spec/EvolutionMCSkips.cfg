SPECIFICATION MSpec
CONSTANTS Steps = 3
          Slip = "skips"
INVARIANTS Accepted Bounded
CHECK_DEADLOCK FALSE
