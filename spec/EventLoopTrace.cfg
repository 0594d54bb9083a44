SPECIFICATION TSpec
CONSTANTS Props <- TProps
 BYPASS = 40
CONSTRAINT Record
POSTCONDITION Report
CHECK_DEADLOCK FALSE
