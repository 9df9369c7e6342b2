CONSTANTS
  Prog <- ThreadProg
  Mode = "gen"
INIT Init
NEXT Next
INVARIANTS NotAffected Schedules
CHECK_DEADLOCK FALSE
