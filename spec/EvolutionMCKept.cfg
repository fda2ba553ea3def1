SPECIFICATION MSpec
CONSTANTS Steps = 3
          Slip = "kept"
INVARIANTS Accepted Bounded
CHECK_DEADLOCK FALSE
