SPECIFICATION Spec
CONSTANTS Tokens <- Heads Most = 10 Opening <- NoText TextOf <- SameText
