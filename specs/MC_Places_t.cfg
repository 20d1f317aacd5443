INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Opts <- Big
 Start <- Starts
INVARIANTS WalkSeesAll NoneTwice NoGit ClimbFinds Inside Spelling Emit
