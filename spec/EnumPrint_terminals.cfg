SPECIFICATION Spec
CONSTANTS Bytes = {34, 39, 92, 9, 10, 13, 32, 60, 62, 124, 116, 58, 126} NameSet = {65} TermLen = 4 MaxAlts = 1 MaxSyms = 1 MaxRules = 1 TextOf <- SameText
INVARIANT RoundTrip
