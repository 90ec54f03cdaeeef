SPECIFICATION Spec
CONSTANTS Shape <- Shape13 Bytes = {97, 98} WordLen = 4
