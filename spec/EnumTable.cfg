SPECIFICATION Spec
CONSTANTS BodyLen = 2 WordLen = 3 Piece = 8 Input <- SameInput
