SPECIFICATION Spec
CONSTANTS Mode = "inplace"
 Looks = 3
INVARIANTS Complete NeverMistaken
CHECK_DEADLOCK FALSE
