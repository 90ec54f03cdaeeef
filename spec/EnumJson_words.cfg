SPECIFICATION Spec
CONSTANTS Tokens <- Words Most = 4
