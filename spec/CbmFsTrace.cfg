SPECIFICATION Spec
INVARIANT NoBad
VIEW View
ALIAS Short
CHECK_DEADLOCK FALSE
CONSTANT Prop = "ALL"
