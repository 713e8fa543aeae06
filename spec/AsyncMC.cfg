SPECIFICATION Spec
INVARIANT Contract
CONSTANTS
  Getters = {"g1", "g2"}
  Drop = ""
  Spurious = 2
