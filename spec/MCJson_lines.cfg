SPECIFICATION Spec
CONSTANTS
  MaxLen = 7
  Alphabet <- Lines
INVARIANTS MachineIsSubset FailIsFinal
CHECK_DEADLOCK FALSE
