SPECIFICATION MSpec
CONSTANTS Depth = 8
          Slip = "none"
INVARIANTS Accepted Fades
CHECK_DEADLOCK FALSE
