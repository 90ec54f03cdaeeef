SPECIFICATION Spec
CONSTANTS Shape <- Shape31 Bytes = {97, 98} WordLen = 3 Foreign = 0 Piece = 8 Input <- SameInput
