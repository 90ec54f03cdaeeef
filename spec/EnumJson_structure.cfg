SPECIFICATION Spec
CONSTANTS Tokens <- Structure Most = 5
