SPECIFICATION SSpec
INVARIANTS Wins Fresh EmitS
CONSTANTS Files = {"A", "B", "O"}
 Contents = {"lf", "crlf", "uni", "lf2"}
 None = "none"
CHECK_DEADLOCK FALSE
