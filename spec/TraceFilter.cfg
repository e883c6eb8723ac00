SPECIFICATION TSpec
POSTCONDITION Accepted_
CHECK_DEADLOCK FALSE
