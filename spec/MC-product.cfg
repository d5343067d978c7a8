\* All streams of up to four blocks over the product catalogue.
SPECIFICATION MCSpec
CONSTANTS
  MaxLen = 4
  MaxEvals = 1
  NParties = 1
  MaxFails = 0
  MaxRolls = 0
  Blocks <- MCBlocks
  Parties <- MCParties
INVARIANTS ModelHolds LedgerOK
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
