SPECIFICATION MSpec
CONSTANTS Speeds = {2000, 6000}  Moves = {0, 500, 1000}
  FixedSign = TRUE  OtherPeak = FALSE
INVARIANTS StormAccepted DamageRefused MirrorTwice
CHECK_DEADLOCK FALSE
