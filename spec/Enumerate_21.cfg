SPECIFICATION Spec
CONSTANTS Shape <- Shape21 Bytes = {97, 98} WordLen = 4
