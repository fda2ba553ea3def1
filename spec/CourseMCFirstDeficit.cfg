SPECIFICATION MSpec
CONSTANTS Depth = 8
          Slip = "first deficit"
INVARIANTS Accepted Fades
CHECK_DEADLOCK FALSE
