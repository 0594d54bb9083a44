SPECIFICATION TSpec
CONSTANTS Props <- TProps
CONSTRAINT Record
POSTCONDITION Report
CHECK_DEADLOCK FALSE
