SPECIFICATION MSpec
CONSTANTS NFiles = 2
          Vals = {0, 7}
          Leak = "none"
          MaxOps = 4
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
