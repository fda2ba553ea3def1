SPECIFICATION MSpec
CONSTANTS Longest = 5
          Slip = "none"
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
