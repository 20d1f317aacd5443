CONSTANTS
 Focus = "frame"
 Depth = 1
 Rich = FALSE
INIT Init
NEXT Next
INVARIANTS ListLaw OnceLaw Idempotent FrameLaw FailLaw QuietLaw UniqueLaw ScalarLaw FileLaw TargetLaw CommentLaw PrintLaw CommentFrame Emit
CHECK_DEADLOCK FALSE
