SPECIFICATION RSpec
CONSTANTS
  MaxLen = 3
  MaxEvals = 1
  NParties = 1
  MaxFails = 1
  MaxRolls = 0
  Blocks <- MCBlocks
  Parties <- MCParties
INVARIANTS ModelHolds LedgerOK
PROPERTIES Refines Terminates Judges
CHECK_DEADLOCK FALSE
