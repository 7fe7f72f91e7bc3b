SPECIFICATION Spec
INVARIANTS Correct Ends Printed
CHECK_DEADLOCK FALSE
CONSTANTS SMax = 1
 DMax = 2
 Shapes = {1, 2, 3, 4, 5, 6, 7, 8}
 MaxBlock = 3
 Fails = TRUE
 Show = FALSE
