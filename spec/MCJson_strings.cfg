SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Alphabet <- Strings
INVARIANTS MachineIsSubset FailIsFinal
CHECK_DEADLOCK FALSE
