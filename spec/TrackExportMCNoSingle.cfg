SPECIFICATION MSpec
CONSTANTS Longest = 5
          Slip = "no single"
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
