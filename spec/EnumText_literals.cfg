SPECIFICATION Spec
CONSTANTS Tokens <- Literals Most = 6 Opening <- Rule0 TextOf <- SameText
