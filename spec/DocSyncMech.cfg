SPECIFICATION Spec
INVARIANT Correct
PROPERTIES Settles Refines
CONSTANTS Contents = {"lf", "crlf"}
 None = "none"
 MaxActs = 4
CHECK_DEADLOCK FALSE
