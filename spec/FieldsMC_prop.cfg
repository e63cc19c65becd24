SPECIFICATION Spec
CONSTANTS
  Hdr <- MCHdr
  Classes <- HProp
  Objs <- ODep
  Subscribe <- SubDep
  Sets <- SetDep
  Updates <- UpdDep
  Resets = {"o1"}
  NOps = 1
  NNested = 2
  NBoom = 1
INVARIANTS TypeOK Exactly Refused Stored Together AfterAll LastTrue Clean Live
CHECK_DEADLOCK FALSE
