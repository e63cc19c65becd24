SPECIFICATION Spec
CONSTANTS
  Hdr <- MCHdr
  Classes <- HData
  Objs <- OData
  Subscribe <- SubData
  Sets <- SetData1
  Updates <- None
  Resets = {}
  NOps = 2
  NNested = 2
  NBoom = 1
INVARIANTS TypeOK Exactly Refused Stored Together AfterAll LastTrue Clean Live
CHECK_DEADLOCK FALSE
