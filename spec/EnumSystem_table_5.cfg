SPECIFICATION Spec
CONSTANTS Calls = 5 Beginning = "table" Words <- TheWords Piece = 8 Input <- SameInput
INVARIANT Same
PROPERTY LibraryKept
