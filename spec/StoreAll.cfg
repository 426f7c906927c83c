SPECIFICATION Spec
CONSTANTS Hs = {1, 2}
          Big1 = FALSE
          Alias = FALSE
INVARIANTS OctetsOfMessage WellFormed
PROPERTIES Isolated ReadsOnly
CHECK_DEADLOCK FALSE
