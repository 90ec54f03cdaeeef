SPECIFICATION Spec
CONSTANTS Calls = {1, 2, 3}
          Leaky = TRUE
          Inputs <- AllInputs
INVARIANTS AsAlone NoConflict Untouched
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
