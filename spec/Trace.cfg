INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
VIEW TView
