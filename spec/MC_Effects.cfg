SPECIFICATION Spec
CONSTANT Cycles = 4
CHECK_DEADLOCK FALSE
INVARIANTS StateOK StepOK StaticKept
