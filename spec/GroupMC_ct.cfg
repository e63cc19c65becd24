SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Ops = {"emit", "gctx", "mctx", "mblock"}
  MaxOps = 6
  MaxDepth = 6
  Conn0 <- Conn_b
  NCb = 2
INVARIANTS RelayedOnce RelayedRight MemberOnce OtherMembersSilent GroupOrder PauseComplete Attached Silence
PROPERTIES Restored Untouched
