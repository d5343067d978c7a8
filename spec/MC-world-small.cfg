\* The same in the small.
SPECIFICATION WSpec
CONSTANTS
  MaxLen = 2
  MaxEvals = 2
  NParties = 2
  MaxFails = 0
  MaxRolls = 1
  Blocks <- MCBlocks
  Parties <- MCParties
INVARIANTS ModelHolds LedgerOK NoDoubleSpend Closings20
VIEW WView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
