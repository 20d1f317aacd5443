INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 FlagSets <- FlagDom
 CfgSets <- CfgDom
 Names = {"none", "off", "cfg.json"}
 Envs = {"none", "", "cfg.json"}
INVARIANTS Resolved FlagWins Only Emit
