SPECIFICATION Spec
CONSTANTS Tokens <- Words Most = 5
