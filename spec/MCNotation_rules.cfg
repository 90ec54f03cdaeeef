SPECIFICATION Spec
CONSTANTS Bytes = {34, 39, 92} NameSet = {65, 122} TermLen = 1 MaxAlts = 2 MaxSyms = 1 MaxRules = 2
INVARIANT RoundTrip
PROPERTY Ends
CONSTANT TextOf <- SameText
