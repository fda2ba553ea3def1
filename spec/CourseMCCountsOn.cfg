SPECIFICATION MSpec
CONSTANTS Depth = 8
          Slip = "counts on"
INVARIANTS Accepted Fades
CHECK_DEADLOCK FALSE
