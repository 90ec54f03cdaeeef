SPECIFICATION Spec
CONSTANTS Tokens <- Lines Most = 7 Opening <- NoText TextOf <- SameText
