SPECIFICATION Spec
CONSTANTS
  Hdr <- MCHdr
  Classes <- HDep
  Objs <- ODep
  Subscribe <- SubDep
  Sets <- SetDep
  Updates <- UpdDep
  Resets = {"o1"}
  NOps = 2
  NNested = 0
  NBoom = 0
INVARIANTS TypeOK Exactly Refused Stored Together AfterAll LastTrue Clean Live
CHECK_DEADLOCK FALSE
