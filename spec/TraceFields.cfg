SPECIFICATION Spec
CONSTANT Hdr <- TraceHdr
VIEW Loc
CHECK_DEADLOCK FALSE
