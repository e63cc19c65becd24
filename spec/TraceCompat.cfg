SPECIFICATION Spec
VIEW Loc
CHECK_DEADLOCK FALSE
