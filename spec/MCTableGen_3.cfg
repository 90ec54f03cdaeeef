SPECIFICATION Spec
CONSTANTS Shape <- Shape31 Bytes = {97}
INVARIANT Confluent
