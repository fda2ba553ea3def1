SPECIFICATION Spec
CONSTANTS Mode = "replace"
 Looks = 1
INVARIANTS Complete NeverMistaken
CHECK_DEADLOCK FALSE
