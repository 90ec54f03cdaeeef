SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Alphabet <- Brackets
INVARIANTS MachineIsSubset FailIsFinal
CHECK_DEADLOCK FALSE
