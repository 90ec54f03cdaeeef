SPECIFICATION Spec
CONSTANTS BodyLen = 3 WordLen = 3 Piece = 8 Input <- SameInput
