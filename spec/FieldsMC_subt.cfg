SPECIFICATION Spec
CONSTANTS
  Hdr <- MCHdr
  Classes <- HSub
  Objs <- OSub
  Subscribe <- SubSub
  Sets <- SetSub
  Updates <- UpdSub
  Resets = {"o1", "s1"}
  NOps = 2
  NNested = 2
  NBoom = 1
INVARIANTS TypeOK Exactly Refused Stored Together AfterAll LastTrue Clean Live
CHECK_DEADLOCK FALSE
