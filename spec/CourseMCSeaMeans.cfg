SPECIFICATION MSpec
CONSTANTS Depth = 8
          Slip = "sea means"
INVARIANTS Accepted Fades
CHECK_DEADLOCK FALSE
