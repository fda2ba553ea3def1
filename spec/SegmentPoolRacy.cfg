SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
          NSeg = 4
          Careful = FALSE
          Locked = TRUE
VIEW View
INVARIANTS NoHang Exclusive Once AllWritten
CHECK_DEADLOCK FALSE
