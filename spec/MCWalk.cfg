SPECIFICATION Spec
CONSTANTS MaxNodes = 6
          Visitors = {1, 2}
          Piece = 1
          Kids <- KidsOf
INVARIANTS InOrder Handed Exactly
PROPERTY Ends
