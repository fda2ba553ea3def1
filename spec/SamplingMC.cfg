SPECIFICATION MSpec
CONSTANTS N = 3
          K = 2
INVARIANTS FirstReaches Increases Positive Recovers OriginPositive OriginRecovers
CHECK_DEADLOCK FALSE
