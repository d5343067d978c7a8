\* Clients around a ledger of witnesses with reorganisations: nobody holds competing operations.
SPECIFICATION WSpec
CONSTANTS
  MaxLen = 3
  MaxEvals = 2
  NParties = 2
  MaxFails = 0
  MaxRolls = 1
  Blocks <- MCBlocks
  Parties <- MCParties
INVARIANTS ModelHolds LedgerOK NoDoubleSpend Closings20
VIEW WView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
