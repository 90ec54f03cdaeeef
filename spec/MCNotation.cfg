SPECIFICATION Spec
CONSTANTS Bytes = {34, 39, 92, 9, 10, 13, 32, 60, 62, 124, 116} NameSet = {65} TermLen = 2 MaxAlts = 1 MaxSyms = 2 MaxRules = 1
INVARIANT RoundTrip
PROPERTY Ends
CONSTANT TextOf <- SameText
