CONSTANTS
  Prog <- TraceProg
  Mode = "trace"
INIT Init
NEXT Next
INVARIANT Verdict
CHECK_DEADLOCK FALSE
