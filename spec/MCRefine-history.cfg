SPECIFICATION RSpec
CONSTANTS
  MaxLen = 3
  MaxEvals = 2
  NParties = 2
  MaxFails = 1
  MaxRolls = 1
  Blocks <- MCBlocks
  Parties <- MCParties
INVARIANTS ModelHolds LedgerOK
PROPERTIES Refines Terminates Judges
CHECK_DEADLOCK FALSE
