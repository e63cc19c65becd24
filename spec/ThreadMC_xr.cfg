SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Thr <- Thr2
  Progs <- Progs_x
  Sig0 <- Sig_x
  Nested <- Nested_x
  MaxOps = 4
  MaxNest = 1
  Raising = TRUE
INVARIANTS Exclusive NotInterleaved NoDuplicate Complete ExactlyOnce QueueOrder NoDeadlock Usable
