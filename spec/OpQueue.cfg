CONSTANTS Causes = {"open", "save"} Args = {1, 2} Results = {7, 8} MaxReq = 4
SPECIFICATION Spec
INVARIANTS AtMostOne NothingForgotten
PROPERTIES NewestWins StartsOnlyIdle EventuallyServed
CHECK_DEADLOCK FALSE
