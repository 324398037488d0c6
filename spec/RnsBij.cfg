CONSTANT Bases <- BasesV
INIT Init
NEXT Next
INVARIANTS GadgetDef Canonical RoundTrip Unique
CHECK_DEADLOCK FALSE
