SPECIFICATION Spec
CONSTANT MaxSize = 8
INVARIANTS Complete Honest Single
PROPERTY Ends
