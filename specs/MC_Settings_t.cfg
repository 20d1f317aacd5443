INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 FlagSets <- BigFlagDom
 CfgSets <- BigCfgDom
 Names = {"none", "off", "cfg.json", ".buildifier.json", "example", ""}
 Envs = {"none", "", "off", "cfg.json"}
INVARIANTS Resolved FlagWins Only Emit
