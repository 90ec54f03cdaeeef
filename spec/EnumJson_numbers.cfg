SPECIFICATION Spec
CONSTANTS Tokens <- Numbers Most = 4
