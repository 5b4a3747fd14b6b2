SPECIFICATION LSpec
INVARIANTS Wins Fresh EmitInit
ACTION_CONSTRAINT PrintEdge
VIEW View
CONSTANTS Files = {"A"}
 Contents = {"lf", "crlf", "uni"}
 None = "none"
CHECK_DEADLOCK FALSE
