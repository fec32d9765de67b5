SPECIFICATION LiveSpec
CONSTANTS
  Timeout = 10
  IdFor <- MCIdFor
  MutLockHeld <- MLockHeld
  MutSendFirst <- MSendFirst
  MutReuseId <- MReuseId
  MutAckKept <- MAckKept
  MutNoFlush <- MNoFlush
  MutEarlyMsg <- MEarlyMsg
  MutFallbackBoth <- MFallbackBoth
  MutSplitBatch <- MSplitBatch
  MutPongLost <- MPongLost
  MutCallsGoOn <- MCallsGoOn
PROPERTIES CallbackEnds ConnectEnds Released CloseEnds DropEnds
CHECK_DEADLOCK FALSE
