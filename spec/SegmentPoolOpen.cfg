SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
          NSeg = 4
          Careful = TRUE
          Locked = FALSE
VIEW View
INVARIANTS NoHang Exclusive Once AllWritten
CHECK_DEADLOCK FALSE
