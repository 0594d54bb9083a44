SPECIFICATION TSpec
CONSTANTS NL = 32
 DL = 288
 PL = 1060
 ML = 1024
 TOL = 100
 Props <- TProps
CONSTRAINT Record
POSTCONDITION Report
CHECK_DEADLOCK FALSE
