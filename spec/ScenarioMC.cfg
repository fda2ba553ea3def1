SPECIFICATION MSpec
CONSTANTS Spots = {0, 50, 150, 201, 552}
          Margins = {0, 200}
          Rounding = "outwards"
INVARIANTS Accepted Complete Inside Reported NoMapAfterFailure
CHECK_DEADLOCK FALSE
