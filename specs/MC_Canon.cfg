CONSTANTS
 Labs = {"//x:x", "//x", ":b", "a"}
 MaxLen = 2
 Mods = {"//x:a.bzl", ":b.bzl"}
 MaxStmts = 3
INIT Init
NEXT Next
INVARIANTS Idempotent Contents OrderFree LoadOrderFree Emit
CHECK_DEADLOCK FALSE
