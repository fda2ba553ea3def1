SPECIFICATION MSpec
CONSTANT Rule = "both"
INVARIANTS TwoWays Parity Orientation Turned OneWay Told NetEast
CHECK_DEADLOCK FALSE
