SPECIFICATION Spec
CONSTANTS Calls = {1, 2}
          Shared = FALSE
INVARIANT AsAlone
PROPERTY Returns
CHECK_DEADLOCK FALSE
