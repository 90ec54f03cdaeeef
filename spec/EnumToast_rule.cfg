SPECIFICATION Spec
CONSTANTS Scope = "rule" Size = 4
INVARIANT FindIsTopmost
