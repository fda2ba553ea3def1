SPECIFICATION MSpec
CONSTANTS Longest = 5
          Slip = "drops"
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
