SPECIFICATION Spec
CONSTANTS Shape <- Shape21 Bytes = {97, 98} Spare = 99 WordLen = 3
INVARIANT Same
CHECK_DEADLOCK FALSE
