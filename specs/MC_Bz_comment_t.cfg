CONSTANTS
 Focus = "comment"
 Depth = 2
 Rich = TRUE
INIT Init
NEXT Next
INVARIANTS ListLaw OnceLaw Idempotent FrameLaw FailLaw QuietLaw UniqueLaw ScalarLaw FileLaw TargetLaw CommentLaw PrintLaw CommentFrame Emit
CHECK_DEADLOCK FALSE
