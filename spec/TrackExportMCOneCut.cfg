SPECIFICATION MSpec
CONSTANTS Longest = 5
          Slip = "one cut"
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
