SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Chr <- ChrData
  FloatRank <- FloatData
  Ghost = FALSE
  Limit = 3000
