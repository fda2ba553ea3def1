INIT GInit
NEXT GNext
CONSTANTS Threads = {1, 2, 3}
          NSeg = 3
          Careful = FALSE
          Locked = TRUE
CHECK_DEADLOCK FALSE
