SPECIFICATION Spec
CONSTANTS Mode = "inplace"
 Looks = 2
INVARIANTS Complete NeverMistaken
CHECK_DEADLOCK FALSE
