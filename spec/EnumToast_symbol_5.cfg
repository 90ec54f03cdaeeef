SPECIFICATION Spec
CONSTANTS Scope = "symbol" Size = 5
INVARIANT FindIsTopmost
