SPECIFICATION Spec
VIEW View
CONSTANTS Piece = 64 Input <- SameInput
