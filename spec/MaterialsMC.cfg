SPECIFICATION MCSpec
CONSTANTS
  Mixed <- IMixed
  Near <- INear
  Zero = 0
  Half = 1
INVARIANTS Fixed Own Patched Outside Single
CHECK_DEADLOCK FALSE
