SPECIFICATION Spec
CONSTANTS Shape <- ShapeChain Bytes = {97, 98} WordLen = 3
