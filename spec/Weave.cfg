SPECIFICATION Spec
CONSTANT MaxSegs = 8
CHECK_DEADLOCK FALSE
