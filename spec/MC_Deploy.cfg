SPECIFICATION Spec
CONSTANT Accounts = {"a", "b"}
CHECK_DEADLOCK FALSE
INVARIANTS KnownExact AccountsExact CallsExact RunsPublished
