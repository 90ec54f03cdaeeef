SPECIFICATION Spec
CONSTANTS Calls = 4 Beginning = "grammar" Words <- TheWords Piece = 8 Input <- SameInput
INVARIANT Same
PROPERTY LibraryKept
