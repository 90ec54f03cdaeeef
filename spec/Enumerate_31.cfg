SPECIFICATION Spec
CONSTANTS Shape <- Shape31 Bytes = {97, 98} WordLen = 3
