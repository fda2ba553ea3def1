SPECIFICATION MSpec
INVARIANTS Precedence RoundTrip
PROPERTY SetSurvives
CHECK_DEADLOCK FALSE
