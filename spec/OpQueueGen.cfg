CONSTANTS Causes = {"open", "save"} Args = {1, 2} Results = {7, 8} MaxReq = 3
SPECIFICATION Spec
INVARIANTS AtMostOne NothingForgotten
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
