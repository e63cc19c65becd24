SPECIFICATION Spec
CONSTANTS
  Hdr <- MCHdr
  Classes <- HData
  Objs <- OData
  Subscribe <- SubData
  Sets <- SetData
  Updates <- None
  Resets = {}
  NOps = 2
  NNested = 1
  NBoom = 1
INVARIANTS TypeOK Exactly Refused Stored Together AfterAll LastTrue Clean Live
CHECK_DEADLOCK FALSE
