SPECIFICATION Spec
INVARIANTS ExactlyOnce NoStuck Complete Bounded
PROPERTY Termination
CHECK_DEADLOCK FALSE
