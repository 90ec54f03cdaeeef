SPECIFICATION Spec
CONSTANTS Tokens <- Lines Most = 8 Opening <- NoText TextOf <- SameText
