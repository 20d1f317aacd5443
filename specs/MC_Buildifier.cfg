INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Contents <- SmallContents
 Modes = {"", "check", "d", "print_if_changed"}
 Lints = {"", "warn", "fix"}
 Formats = {"", "json"}
 Diffs = {"vd0", "vd1", "vd0m"}
INVARIANTS Sequential FileKept NothingRefused CleanMeansClean Fixed LintFixed Others Emit
