SPECIFICATION Spec
CONSTANTS Together = 3 Pauses = 2 Mode = "nested" Piece = 8 Input <- SameInput
INVARIANTS AsBegun Shows
PROPERTY Kept
