INIT GInit
NEXT GNext
CONSTANTS Length = 14
CHECK_DEADLOCK FALSE
