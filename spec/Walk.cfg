SPECIFICATION Spec
CONSTANTS Steps = 40
          MaxH = 4
INVARIANTS Sound Printed
CHECK_DEADLOCK FALSE
