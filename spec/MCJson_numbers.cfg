SPECIFICATION Spec
CONSTANTS
  MaxLen = 7
  Alphabet <- Numbers
INVARIANTS MachineIsSubset FailIsFinal
CHECK_DEADLOCK FALSE
