SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NObj = 0
  Relay = TRUE
  Prios = {0}
  MaxCbs = 40
  NCb = 2
  Ops = {"emit", "fast", "raise"}
  MaxOps = 6
  Modes <- Modes_C05t
  Connected <- Connected_C05t
INVARIANTS NoDuplicate InOrder OnlyConnected NeverBlocked Complete QueuedComplete ModeOrder PausedInOrder NoResidue ReplayedAll Surfaces Sorted EmitterRight SenderClear
