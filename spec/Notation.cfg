CONSTANTS N = 2
MaxEdits = 2
MaxLen = 7
SPECIFICATION Spec
VIEW View
INVARIANTS ParserAgrees Emit
CHECK_DEADLOCK FALSE
