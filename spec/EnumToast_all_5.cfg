SPECIFICATION Spec
CONSTANTS Scope = "all" Size = 5
INVARIANT FindIsTopmost
