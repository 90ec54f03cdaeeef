SPECIFICATION Spec
CONSTANTS Together = 3 Pauses = 1 Mode = "turns" Piece = 8 Input <- SameInput
INVARIANTS AsBegun Shows
PROPERTY Kept
