SPECIFICATION Spec
CONSTANTS Bytes = {39} NameSet = {65, 98} TermLen = 1 MaxAlts = 2 MaxSyms = 1 MaxRules = 3 TextOf <- SameText
INVARIANT RoundTrip
