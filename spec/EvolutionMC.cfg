SPECIFICATION MSpec
CONSTANTS Steps = 3
          Slip = "none"
INVARIANTS Accepted Bounded
CHECK_DEADLOCK FALSE
