SPECIFICATION Spec
CONSTANTS Together = 2 Pauses = 3 Mode = "nested" Piece = 8 Input <- SameInput
INVARIANTS AsBegun Shows
PROPERTY Kept
