SPECIFICATION MSpec
CONSTANTS MaxGap = 4
          MaxRecs = 3
          Deltas = {1, 2, 3, 5}
          Slip = FALSE
INVARIANTS RuleAccepted DamageRefused
CHECK_DEADLOCK FALSE
