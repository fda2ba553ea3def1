SPECIFICATION MSpec
INVARIANTS RoundTrip OnlyMade Determined Lowest Starts
CHECK_DEADLOCK FALSE
