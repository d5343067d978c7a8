\* All streams over the adversarial catalogue, one evaluation.
SPECIFICATION MCSpec
CONSTANTS
  MaxLen = 4
  MaxEvals = 1
  NParties = 1
  MaxFails = 1
  MaxRolls = 0
  Blocks <- MCBlocks
  Parties <- MCParties
INVARIANTS ModelHolds LedgerOK
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
