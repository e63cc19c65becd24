SPECIFICATION Spec
CONSTANTS
  Hdr <- MCHdr
  Classes <- HDepI
  Objs <- ODep
  Subscribe <- SubDep2
  Sets <- SetDep2
  Updates <- UpdDep1
  Resets = {}
  NOps = 1
  NNested = 1
  NBoom = 1
INVARIANTS TypeOK Exactly Refused Stored Together AfterAll LastTrue Clean Live
CHECK_DEADLOCK FALSE
