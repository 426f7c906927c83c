SPECIFICATION Spec
CONSTANTS Calls = {1, 2}
          Shared = TRUE
INVARIANT AsAlone
CHECK_DEADLOCK FALSE
