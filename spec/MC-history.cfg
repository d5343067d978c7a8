\* Two clients, two evaluations, a read failure and a rollback.
SPECIFICATION MCSpec
CONSTANTS
  MaxLen = 3
  MaxEvals = 2
  NParties = 2
  MaxFails = 1
  MaxRolls = 1
  Blocks <- MCBlocks
  Parties <- MCParties
INVARIANTS ModelHolds LedgerOK
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
