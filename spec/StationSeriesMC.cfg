SPECIFICATION MSpec
CONSTANTS Procs = {0, 1, 2}
          NStorms = 3
          NSteps = 2
          Collect = TRUE
INVARIANTS Complete NoneOutside
CHECK_DEADLOCK FALSE
