\* Everything without bounds for one client.
SPECIFICATION MCSpec
CONSTANTS
  MaxLen = 1000000
  MaxEvals = 1000000
  NParties = 1
  MaxFails = 1000000
  MaxRolls = 1000000
  Blocks <- MCBlocks
  Parties <- MCParties
INVARIANTS ModelHolds LedgerOK
VIEW Forever
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
