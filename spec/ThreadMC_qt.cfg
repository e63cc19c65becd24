SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Thr <- Thr2
  Progs <- Progs_q
  Sig0 <- Sig_q
  Nested <- Nested_q
  MaxOps = 6
  MaxNest = 1
  Raising = TRUE
INVARIANTS Exclusive NotInterleaved NoDuplicate Complete ExactlyOnce QueueOrder NoDeadlock Usable
