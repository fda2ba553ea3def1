SPECIFICATION MSpec
CONSTANTS Longest = 5
          Slip = "east only"
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
