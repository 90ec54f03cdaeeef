SPECIFICATION Spec
VIEW View
CONSTANTS Piece = 64 Batch = 256 Kids <- KidsOf
