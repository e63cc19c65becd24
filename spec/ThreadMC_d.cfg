SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Thr <- Thr2
  Progs <- Progs_d
  Sig0 <- Sig_d
  Nested <- Nested_d
  MaxOps = 4
  MaxNest = 1
  Raising = FALSE
INVARIANTS Exclusive NotInterleaved NoDuplicate Complete ExactlyOnce QueueOrder NoDeadlock Usable
