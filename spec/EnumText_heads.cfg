SPECIFICATION Spec
CONSTANTS Tokens <- Heads Most = 9 Opening <- NoText TextOf <- SameText
