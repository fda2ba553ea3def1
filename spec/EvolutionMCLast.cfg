SPECIFICATION MSpec
CONSTANTS Steps = 3
          Slip = "last"
INVARIANTS Accepted Bounded
CHECK_DEADLOCK FALSE
