SPECIFICATION Spec
CONSTANTS Shape <- ShapeChain Bytes = {97, 98} WordLen = 3 Foreign = 0 Piece = 8 Input <- SameInput
