SPECIFICATION MSpec
INVARIANTS OneToOne ExactlyOne Ends Grows
CHECK_DEADLOCK FALSE
