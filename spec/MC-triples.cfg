\* All streams of up to three blocks, without merging any histories.
SPECIFICATION MCSpec
CONSTANTS
  MaxLen = 3
  MaxEvals = 1
  NParties = 1
  MaxFails = 1
  MaxRolls = 0
  Blocks <- MCBlocks
  Parties <- MCParties
INVARIANTS ModelHolds LedgerOK
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
