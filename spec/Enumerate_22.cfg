SPECIFICATION Spec
CONSTANTS Shape <- Shape22 Bytes = {97, 98} WordLen = 3
