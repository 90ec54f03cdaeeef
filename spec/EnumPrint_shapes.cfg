SPECIFICATION Spec
CONSTANTS Bytes = {34, 92} NameSet = {65, 98} TermLen = 1 MaxAlts = 3 MaxSyms = 2 MaxRules = 1 TextOf <- SameText
INVARIANT RoundTrip
