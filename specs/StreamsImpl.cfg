SPECIFICATION Spec
CONSTANTS Kinds = {"mem", "vec", "str", "vstream", "sstream", "comb", "buf"} MaxLen = 3 MaxOps = 2
INVARIANT CopyOK
PROPERTY Refines
ACTION_CONSTRAINT Script
VIEW view
CHECK_DEADLOCK FALSE
