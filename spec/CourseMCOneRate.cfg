SPECIFICATION MSpec
CONSTANTS Depth = 8
          Slip = "one rate"
INVARIANTS Accepted Fades
CHECK_DEADLOCK FALSE
