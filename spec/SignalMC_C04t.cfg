SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NObj = 0
  Relay = FALSE
  Prios = {0}
  MaxCbs = 40
  NCb = 2
  Ops = {"block", "emit", "fast", "pause", "raise", "resume", "unblock"}
  MaxOps = 7
  Modes <- Modes_C04t
  Connected <- Connected_C04t
INVARIANTS NoDuplicate InOrder OnlyConnected NeverBlocked Complete QueuedComplete ModeOrder PausedInOrder NoResidue ReplayedAll Surfaces Sorted EmitterRight SenderClear
