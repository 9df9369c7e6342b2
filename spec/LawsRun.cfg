CONSTANTS
  Prog <- LawProg
  Mode = "gen"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
VIEW Place
