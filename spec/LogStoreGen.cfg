SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Sizes = {1, 0, 3}
  Bufs = {"1", "2", "-1"}
INVARIANTS Out WellFormed Laws
CHECK_DEADLOCK FALSE
