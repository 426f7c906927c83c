SPECIFICATION Spec
CONSTANTS Hs = {1, 2}
          Big1 = TRUE
          Alias = FALSE
INVARIANTS OctetsOfMessage WellFormed
PROPERTIES Isolated ReadsOnly
CHECK_DEADLOCK FALSE
