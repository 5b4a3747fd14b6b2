SPECIFICATION Spec
INVARIANTS BudgetKept Emit
CHECK_DEADLOCK FALSE
