SPECIFICATION Spec
CONSTANTS Empties = 2
