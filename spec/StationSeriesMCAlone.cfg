SPECIFICATION MSpec
CONSTANTS Procs = {0, 1, 2}
          NStorms = 3
          NSteps = 2
          Collect = FALSE
INVARIANTS Complete NoneOutside
CHECK_DEADLOCK FALSE
