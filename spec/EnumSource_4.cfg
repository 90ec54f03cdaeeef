SPECIFICATION Spec
CONSTANTS Empties = 4
