SPECIFICATION Spec
CONSTANTS Tokens <- Strings Most = 5
