SPECIFICATION Spec
CONSTANT Gates = {"text", "style", "struct", "tight", "clean", "finish", "res", "scope", "readback"}
INVARIANT Complete
