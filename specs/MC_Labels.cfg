CONSTANTS
 Pkgs = {"", "a", "a/b", "b"}
 Targets = {"a", "b", "c.x", "d/e"}
 Repos = {"", "a", "r"}
INIT Init
NEXT Next
INVARIANTS Emit Denotation Idempotent NotLonger FormatRoundTrip Canonical
CHECK_DEADLOCK FALSE
