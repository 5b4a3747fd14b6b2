SPECIFICATION SpecR
INVARIANT EmitR
CONSTRAINT ConR
CHECK_DEADLOCK FALSE
