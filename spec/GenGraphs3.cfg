SPECIFICATION GSpec
CONSTANTS Ns = {"A", "B", "C"}
          MaxP = 0
          Keep = FALSE
INVARIANT Done
CHECK_DEADLOCK FALSE
