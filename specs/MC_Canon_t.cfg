CONSTANTS
 Labs = {"//x:x", "//x", ":b", "a", "@r//:r"}
 MaxLen = 3
 Mods = {"@r//x:a.bzl", "//x:a.bzl", ":b.bzl"}
 MaxStmts = 4
INIT Init
NEXT Next
INVARIANTS Idempotent Contents OrderFree LoadOrderFree Emit
CHECK_DEADLOCK FALSE
