SPECIFICATION Spec
CONSTANTS Scope = "rule" Size = 5
INVARIANT FindIsTopmost
