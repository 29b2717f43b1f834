SPECIFICATION Spec
VIEW View
INVARIANT C01 C03 C04 C05 C06 C07
CHECK_DEADLOCK FALSE
