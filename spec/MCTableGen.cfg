SPECIFICATION FairSpec
CONSTANTS Shape <- Shape21 Bytes = {97, 98}
INVARIANT Confluent
PROPERTY Ends
