SPECIFICATION Spec
CONSTANTS
  MaxTokens = 4
  MaxPieces = 2
INVARIANTS RoundTrip ConstRendersItself
CHECK_DEADLOCK FALSE
