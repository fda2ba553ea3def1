SPECIFICATION MSpec
INVARIANTS OneCell GoodAccepted BadRefused Order
CHECK_DEADLOCK FALSE
