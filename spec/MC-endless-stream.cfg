\* One evaluation of streams of any length.
SPECIFICATION MCSpec
CONSTANTS
  MaxLen = 1000000
  MaxEvals = 1
  NParties = 1
  MaxFails = 1
  MaxRolls = 0
  Blocks <- MCBlocks
  Parties <- MCParties
INVARIANTS ModelHolds LedgerOK
VIEW Forever
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
