SPECIFICATION Spec
CONSTANTS Scope = "symbol" Size = 4
INVARIANT FindIsTopmost
