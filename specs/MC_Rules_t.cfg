INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 3
  Start = {1, 2, 3}
INVARIANTS SetLaw DelLaw OthersLaw ReadLaw KindLaw DelRulesLaw RulesLaw NamedLaw Emit
