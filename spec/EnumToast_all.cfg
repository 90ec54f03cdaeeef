SPECIFICATION Spec
CONSTANTS Scope = "all" Size = 4
INVARIANT FindIsTopmost
