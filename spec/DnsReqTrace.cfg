SPECIFICATION TSpec
CONSTRAINT Record
POSTCONDITION Report
CHECK_DEADLOCK FALSE
