SPECIFICATION Spec
CONSTANT Types = {"A", "B"}
CONSTANT MaxDeps = 2
CONSTANT Depth = 2
CONSTANT Ops = {"req", "opt", "all"}
CONSTANT Emitting = FALSE
INVARIANT NoPartial
INVARIANT OneShared
INVARIANT Faithful
CHECK_DEADLOCK FALSE
