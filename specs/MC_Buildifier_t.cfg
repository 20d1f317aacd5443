INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Contents <- BigContents
 Modes = {"", "fix", "check", "d", "diff", "print_if_changed"}
 Lints = {"", "off", "warn", "fix"}
 Formats = {"", "json", "text"}
 Diffs = {"vd0", "vd1", "vd0m", "vd1m"}
INVARIANTS Sequential FileKept NothingRefused CleanMeansClean Fixed LintFixed Others Emit
