SPECIFICATION Spec
CONSTANTS Bytes = {34, 39, 92, 9, 32, 110} NameSet = {65} TermLen = 2 MaxAlts = 1 MaxSyms = 2 MaxRules = 1 TextOf <- SameText
INVARIANT RoundTrip
