SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Thr <- Thr3
  Progs <- Progs_u
  Sig0 <- Sig_u
  Nested <- Nested_u
  MaxOps = 5
  MaxNest = 0
  Raising = FALSE
INVARIANTS Exclusive NotInterleaved NoDuplicate Complete ExactlyOnce QueueOrder NoDeadlock Usable
