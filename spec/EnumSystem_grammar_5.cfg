SPECIFICATION Spec
CONSTANTS Calls = 5 Beginning = "grammar" Words <- TheWords Piece = 8 Input <- SameInput
INVARIANT Same
PROPERTY LibraryKept
