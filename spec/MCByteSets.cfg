SPECIFICATION Spec
CONSTANTS Universe = {0, 1, 2, 3, 4, 5}
          Words = 3
          Bits = 2
          Regs = 2
INVARIANTS Represents EqualOK SubsetOK LenOK
CHECK_DEADLOCK FALSE
