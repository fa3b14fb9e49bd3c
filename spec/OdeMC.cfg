SPECIFICATION MCSpec
INVARIANTS RowSums HasOrder Accurate
CHECK_DEADLOCK FALSE
