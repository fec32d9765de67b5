SPECIFICATION TraceSpec
CONSTANTS
  Timeout = 10000
  IdFor <- TraceIdFor
  MutLockHeld = FALSE
  MutSendFirst = FALSE
  MutReuseId = FALSE
  MutAckKept = FALSE
  MutNoFlush = FALSE
  MutEarlyMsg = FALSE
  MutFallbackBoth = FALSE
  MutSplitBatch = FALSE
  MutPongLost = FALSE
  MutCallsGoOn = FALSE
INVARIANT ShowProgress
CHECK_DEADLOCK FALSE
