SPECIFICATION MCSpec
CONSTANTS
  Timeout = 10
  IdFor <- MCIdFor
  MutLockHeld <- MLockHeld
  MutSendFirst <- MSendFirst
  MutReuseId <- MReuseId
  MutAckKept <- MAckKept
  MutNoFlush <- MNoFlush
  MutEarlyMsg <- MEarlyMsg
  MutFallbackBoth <- MFallbackBoth
  MutSplitBatch <- MSplitBatch
  MutPongLost <- MPongLost
  MutCallsGoOn <- MCallsGoOn
INVARIANTS Discipline Reassembled NothingHeld AckAtMostOnce IdsUnique AckRight AckKnown ReplyRight
  Fifo Contiguous QueuedWhole PongPerPing CallbackGoesOn ConnectRight CloseRight Contained NothingKept
PROPERTIES Routing ConnectFinal Flushed DeadSilent NoCallsAfter
CHECK_DEADLOCK FALSE
