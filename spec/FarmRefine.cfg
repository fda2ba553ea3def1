SPECIFICATION RefSpec
PROPERTY Refines
CHECK_DEADLOCK FALSE
