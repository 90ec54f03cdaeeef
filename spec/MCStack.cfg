SPECIFICATION Spec
CONSTANTS
  Piece = 1
  Max = 8
INVARIANTS SameStack PiecesFull
CHECK_DEADLOCK FALSE
