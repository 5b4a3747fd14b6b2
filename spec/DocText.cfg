SPECIFICATION Spec1
INVARIANTS PosOk UndoOk FmtOk Emit1
CHECK_DEADLOCK FALSE
