SPECIFICATION MSpec
CONSTANTS Steps = 3
          Slip = "shifted"
INVARIANTS Accepted Bounded
CHECK_DEADLOCK FALSE
